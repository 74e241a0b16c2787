From 3eb18f06651748fc7ccfa92bbc00ab50bbf1f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 01/95] fix: PeekableQueue lost wakeups (put between the check
 and the wait, notify eaten by peek)

---
 satella/coding/concurrent/queue.py | 61 ++++++------------------------
 1 file changed, 12 insertions(+), 49 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..f247a00 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -3,9 +3,8 @@ import threading
 import typing as tp
 
 from satella.coding.concurrent.thread import Condition
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.typing import T
-from satella.exceptions import WouldWaitMore, Empty
+from satella.exceptions import Empty
 from satella.time.measure import measure
 
 
@@ -18,8 +17,8 @@ class PeekableQueue(tp.Generic[T]):
     def __init__(self):
         super().__init__()
         self.queue = collections.deque()
-        self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        self.lock = threading.RLock()
+        self.inserted_condition = Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -29,7 +28,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+            self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,53 +37,17 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
-                self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+                self.put(item)
 
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
-
-    @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
-            try:
-                return item_getter(self.queue)
-            finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+        with self.lock, measure(timeout=timeout) as measurement:
+            while not self.queue:
+                if measurement.timeouted:
+                    raise Empty('queue is empty')
+                # this releases the lock for the duration of the wait
+                self.inserted_condition.wait(timeout=measurement.time_remaining, dont_raise=True)
+            return item_getter(self.queue)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From b897987b05e1b39dbda678a947a090caf9d2451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 02/95] fix: AtomicNumber missed wakeups and deadlock when
 comparing two AtomicNumbers

---
 satella/coding/concurrent/atomic.py | 37 +++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..2f7d59c 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -225,12 +231,15 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
+        if other is self:
+            return True
         if isinstance(other, AtomicNumber):
-            with Monitor.acquire(other):
+            # always lock in the same order, lest a == b deadlocks with b == a
+            first, second = sorted((self, other), key=id)
+            with Monitor.acquire(first), Monitor.acquire(second):
                 return self.value == other.value
-        else:
+        with Monitor.acquire(self):
             return self.value == other
 
     @Monitor.synchronized
@@ -265,18 +274,10 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
-                with Monitor.acquire(self):
-                    if self.value != v:
-                        raise WouldWaitMore()
+        with self.condition, measure(timeout=timeout) as measurement:
+            # writers notify after changing the value, so no change can slip in unnoticed
+            # between this check and the wait
+            while self.value != v:
+                if measurement.timeouted:
+                    raise WouldWaitMore()
+                self.condition.wait(measurement.time_remaining, dont_raise=True)
-- 
2.43.0


From 1e59a911ad98b24785428990e9c8ab86006f6690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 03/95] fix: time heaps raised TypeError on equal timestamps of
 non-comparable items

---
 satella/coding/structures/heaps/time.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..a8fd630 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -7,6 +7,17 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable
 
 
+class _TimeEntry(tuple):
+    """
+    A (timestamp, item) tuple ordered solely by it's timestamp, so that items sharing a timestamp
+    don't need to be comparable to each other
+    """
+    __slots__ = ()
+
+    def __lt__(self, other) -> bool:
+        return self[0] < other[0]
+
+
 class TimeBasedHeap(Heap):
     """
     A heap of items sorted by timestamps.
@@ -95,7 +106,7 @@ class TimeBasedHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_TimeEntry((timestamp, item)))
 
     def peek_closest(self) -> tp.Tuple[Number, T]:
         """
@@ -242,7 +253,7 @@ class TimeBasedSetHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_TimeEntry((timestamp, item)))
 
     def pop_less_than(self, less: tp.Optional[Number] = None) -> tp.Iterator[tp.Tuple[Number, T]]:
         """
-- 
2.43.0


From cbd71cea248a93322f87f24f112b402df755af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 04/95] fix: Timer background thread consumed the heap outside
 of the lock

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..ab21756 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From 22285f8fe28cbaa0817349cb6cd31509dd2d828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 05/95] fix: Singleton and SingletonWithRegardsTo could
 construct twice or expose an uninitialized object

---
 satella/coding/structures/singleton.py | 54 ++++++++++++++++----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..4ade100 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -1,3 +1,4 @@
+import threading
 import typing as tp
 import weakref
 
@@ -17,17 +18,23 @@ def Singleton(cls):
     """
 
     cls.__new_old__ = cls.__new__
+    lock = threading.RLock()
 
     @wraps(cls.__new__)
     def singleton_new(cls, *args, **kw):
-        it = cls.__dict__.get('__it__')
-        if it is not None:
+        with lock:
+            it = cls.__dict__.get('__it__')
+            if it is not None:
+                return it
+
+            cls.__it__ = it = cls.__new_old__(cls)
+            try:
+                it.__init_old__(*args, **kw)
+            except BaseException:
+                del cls.__it__      # don't hand out an object that failed to initialize
+                raise
             return it
 
-        cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
-        return it
-
     cls.__new__ = singleton_new
     cls.__init_old__ = cls.__init__
     cls.__init__ = wraps(cls.__init__)(
@@ -68,23 +75,30 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
     def inner(cls):
 
         cls.__new_old__ = cls.__new__
+        lock = threading.RLock()
 
         @wraps(cls.__new__)
         def singleton_new(cls, *args, **kw):
-            it = cls.__dict__.get('__it__')
-            if it is None:
-                if weak_refs:
-                    it = cls.__it__ = weakref.WeakValueDictionary()
-                else:
-                    it = cls.__it__ = {}
-
-            key = args[:num_args]
-            if key in it:
-                return it[key]
-
-            inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
-            return inst
+            with lock:
+                it = cls.__dict__.get('__it__')
+                if it is None:
+                    if weak_refs:
+                        it = cls.__it__ = weakref.WeakValueDictionary()
+                    else:
+                        it = cls.__it__ = {}
+
+                key = args[:num_args]
+                inst = it.get(key)
+                if inst is not None:
+                    return inst
+
+                inst = it[key] = cls.__new_old__(cls)
+                try:
+                    inst.__init_old__(*args, **kw)
+                except BaseException:
+                    del it[key]     # don't hand out an object that failed to initialize
+                    raise
+                return inst
 
         cls.__new__ = singleton_new
         cls.__init_old__ = cls.__init__
-- 
2.43.0


From d0ce81bd842f0406825ac4e8485e08df7594c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 06/95] fix: IDAllocator ignored start_at when applying
 top_limit

---
 satella/coding/concurrent/id_allocator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..d81b912 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -76,8 +76,8 @@ class IDAllocator(Monitor):
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        if x > self.top_limit - self.start_at:      # x is relative to start_at
+            x = self.top_limit - self.start_at
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From 5b47458ca1dd4eab019353ecbab97ec9e28a7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 07/95] fix: LockedDataset reset its locked flag after
 releasing and shared lock arguments between threads

---
 satella/coding/concurrent/locked_dataset.py | 33 ++++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..e5d8686 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,29 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
+
+    class LockRequest:
+        """A context manager locking given dataset with given arguments"""
+        __slots__ = ('dataset', 'args')
+
+        def __init__(self, dataset: 'LockedDataset', args: tuple):
+            self.dataset = dataset
+            self.args = args
+
+        def __enter__(self):
+            internal = _get_internal(self.dataset)
+            if not internal.lock.acquire(*self.args):
+                raise WouldWaitMore('Resource is still locked')
+            internal.locked = True
+            return self.dataset
+
+        def __exit__(self, exc_type, exc_val, exc_tb):
+            return self.dataset.__exit__(exc_type, exc_val, exc_tb)
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,20 +98,14 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
+        return LockedDataset.LockRequest(self, (blocking, timeout))
 
     def __enter__(self):
-        args = _get_internal(self).args
-
-        if not _get_internal(self).lock.acquire(*args):
-            raise WouldWaitMore('Resource is still locked')
-        _get_internal(self).locked = True
-        return self
+        return LockedDataset.LockRequest(self, ()).__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From fc9de992a534ade1fa071c40dbd96e5e2c4ad113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 08/95] fix: CallableGroup lost callables on exceptions and
 concurrent use, CallNoOftenThan race

---
 satella/coding/concurrent/callablegroup.py | 42 +++++++++++-----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..e0bd516 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,9 +1,8 @@
 import collections
-import copy
+import threading
 import time
 import typing as tp
 
-from satella.coding.deleters import DictDeleter
 from satella.coding.typing import T, NoArgCallable
 
 
@@ -112,19 +111,16 @@ class CallableGroup(tp.Generic[T]):
         :class:`~satella.coding.concurrent.CancellableCallback` instances and whether any
         of them was cancelled
         """
-        for clb in self.callables:
-             if clb:
-                return True
-        return False
+        return any(isinstance(clb, CancellableCallback) and clb.cancelled
+                   for clb in list(self.callables))
 
     def remove_cancelled(self) -> None:
         """
         Remove it's entries that are CancelledCallbacks and that were cancelled
         """
-        with DictDeleter(self.callables) as dd:
-            for callable_ in dd:
-                if isinstance(callable_, CancellableCallback) and not callable_:
-                    dd.delete()
+        for callable_ in list(self.callables):
+            if isinstance(callable_, CancellableCallback) and not callable_:
+                self.callables.pop(callable_, None)
 
     def add(self, callable_: tp.Union[CancellableCallback, NoArgCallable[T]],
             one_shot: bool = False) -> CancellableCallback:
@@ -168,12 +164,13 @@ class CallableGroup(tp.Generic[T]):
         if self.has_cancelled_callbacks:
             self.remove_cancelled()
 
-        callables = copy.copy(self.callables)
-        self.callables.clear()
-
         results = []
 
-        for call, one_shot in callables.items():
+        for call, one_shot in list(self.callables.items()):
+            # whoever manages to remove a one-shot callable is the one to call it
+            if one_shot and self.callables.pop(call, None) is None:
+                continue
+
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -184,9 +181,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
@@ -202,14 +196,18 @@ class CallNoOftenThan:
     :param interval: interval in seconds
     :param callable_: callable to call
     """
-    __slots__ = ('interval', 'callable', 'last_called')
+    __slots__ = ('interval', 'callable', 'last_called', 'lock')
 
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = None  # type: tp.Optional[float]
+        self.lock = threading.Lock()
 
     def __call__(self, *args, **kwargs):
-        if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
-            self.last_called = time.monotonic()
+        with self.lock:
+            now = time.monotonic()
+            if self.last_called is not None and now - self.last_called < self.interval:
+                return
+            self.last_called = now
+        self.callable(*args, **kwargs)
-- 
2.43.0


From 9ea68b7e1ececfb8750187bc8006677c190fcc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 09/95] fix: sync_threadpool could leave its pool blocked
 forever

---
 satella/coding/concurrent/sync.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..0b2b8c9 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
+from threading import Event
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,23 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        done = Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            done.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            done.set()      # release the workers even if we have failed
         wait(futures)
-- 
2.43.0


From 520cbfd326f104aa7d09f6d9ce5af1320d8cc10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 10/95] fix: Future exposed unfinished results during pre-done
 callbacks; WrappingFuture lost cancellations

---
 satella/coding/concurrent/futures/futures.py | 31 ++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..0fc00c2 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -1,5 +1,6 @@
 import concurrent.futures._base
 import logging
+import threading
 import typing as tp
 from concurrent.futures import Future as PythonFuture
 from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED
@@ -39,6 +40,11 @@ class Future(PythonFuture, tp.Generic[T]):
         super().__init__()
         self._pre_done_callbacks = []
         self._done_callbacks = []
+        self._pre_finished_by = None        # ident of the thread running pre-done callbacks
+
+    def _is_pre_finishing(self) -> bool:
+        """Is the calling thread currently running pre-done callbacks of this future?"""
+        return self._state == PRE_FINISHED and self._pre_finished_by == threading.get_ident()
 
     def on_success(self, fun) -> 'Future':
         """
@@ -50,7 +56,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
@@ -120,13 +126,13 @@ class Future(PythonFuture, tp.Generic[T]):
                 LOGGER.exception('exception calling callback for %r', self)
 
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
+        if self._is_pre_finishing():
             return self.__get_result()
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
-        if self._state == PRE_FINISHED:
+    def exception(self, timeout=None) -> tp.Optional[Exception]:
+        if self._is_pre_finishing():
             return self._exception
         else:
             return super().exception(timeout)
@@ -136,13 +142,15 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._is_pre_finishing():
+            self._exception = None
             self._result = result
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                     raise InvalidStateError('{}: {!r}'.format(self._state, self))
                 self._result = result
+                self._pre_finished_by = threading.get_ident()
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
@@ -156,7 +164,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._is_pre_finishing():
             self._exception = exception
             self._result = None
         else:
@@ -164,6 +172,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                     raise InvalidStateError('{}: {!r}'.format(self._state, self))
                 self._exception = exception
+                self._pre_finished_by = threading.get_ident()
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
@@ -186,7 +195,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
@@ -203,13 +211,18 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                for waiter in self._waiters:
+                    waiter.add_cancelled(self)
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 20ed9347c88fe552b552cf7b146f43d48047502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 11/95] fix: FutureCollection.cancel and
 set_running_or_notify_cancel skipped futures

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 09d46bba707264db62ec521cd4253cd4e9b13632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 12/95] fix: futures of call_in_separate_thread and
 run_as_future never resolved upon a BaseException

---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..3f8d222 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:      # lest whoever waits for the future hangs
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..2c2e4f3 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:  # lest whoever waits for the future hangs
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From 08c9436f5a0eaf0cf8f630452da06067695d993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 13/95] fix: SingleStartThread.start could start twice or
 return None

---
 satella/coding/concurrent/thread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 2c2e4f3..bc76803 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -151,6 +151,7 @@ class SingleStartThread(threading.Thread):
 
     def __init__(self, *args, **kwargs):
         self.__started = False
+        self.__start_lock = threading.Lock()
         super().__init__(*args, **kwargs)
 
     def start(self) -> 'SingleStartThread':
@@ -159,10 +160,10 @@ class SingleStartThread(threading.Thread):
 
         :return: self
         """
-        if self.__started:
-            return
-        self.__started = True
-        super().start()
+        with self.__start_lock:
+            if not self.__started:
+                super().start()
+                self.__started = True
         return self
 
 
-- 
2.43.0


From ca233dcb7561ef3f1026b9f14a388f25b490ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:51 +0000
Subject: [PATCH 14/95] fix: CallableGroup invocation failed when callables
 were added or removed concurrently

---
 satella/coding/concurrent/callablegroup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index e0bd516..534d94d 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,4 +1,3 @@
-import collections
 import threading
 import time
 import typing as tp
@@ -100,7 +99,9 @@ class CallableGroup(tp.Generic[T]):
 
     def __init__(self, gather: bool = True, swallow_exceptions: bool = False):
 
-        self.callables = collections.OrderedDict()  # type: tp.Dict[tp.Callable, tuple[bool, int]]
+        # not an OrderedDict, since iterating over that calls __hash__ of CancellableCallback, and so
+        # another thread may change it meanwhile
+        self.callables = {}  # type: tp.Dict[tp.Callable, bool]
         self.gather = gather  # type: bool
         self.swallow_exceptions = swallow_exceptions  # type: bool
 
-- 
2.43.0


From 7d2e737feb8b492cf766d1c72e6ddc1728c67a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 15/95] fix: WrappingFuture could present its result before it
 was there

---
 satella/coding/concurrent/futures/futures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 0fc00c2..6c98db7 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -198,10 +198,11 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        state = self.source_future._state  # read it once, as it might change meanwhile
+        if state == FINISHED:
             return self._old_state
         else:
-            return self.source_future._state
+            return state
 
     @_state.setter
     def _state(self, v: str):
-- 
2.43.0


From c1b9e3b7159a386ef7da3efeccd98e245108a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 16/95] fix: parallel_execute shared a generator between
 concurrent calls

---
 satella/coding/concurrent/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index 3f8d222..f377846 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -43,7 +43,7 @@ def run_as_future(fun):
 
 def parallel_execute(callable_: tp.Callable[[T], Future],
                      args: tp.Iterable[T],
-                     kwargs: tp.Iterable[dict] = infinite_iterator(return_factory=dict)):
+                     kwargs: tp.Optional[tp.Iterable[dict]] = None):
     """
     Execute a number of calls to callable in parallel.
 
@@ -54,9 +54,13 @@ def parallel_execute(callable_: tp.Callable[[T], Future],
 
     :param callable_: a callable that returns futures
     :param args: an iterable of arguments to provide to the callable
-    :param kwargs: an iterable of keyword arguments to provide to the callable
+    :param kwargs: an iterable of keyword arguments to provide to the callable. Default is no
+        keyword arguments for any of the calls
     :return: an iterator yielding every value (or exception instance if thew) of the future
     """
+    if kwargs is None:
+        # a single iterator shared between the calls could not be used by two threads at once
+        kwargs = infinite_iterator(return_factory=dict)
     futures = [callable_(*arg, **kwarg) for arg, kwarg in zip(args, kwargs)]
     for future in futures:
         try:
-- 
2.43.0


From 4af04d8fcdf9b29f683bea65da327db514de58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:36 +0000
Subject: [PATCH 17/95] fix: BogusTerminableThread.join() without a timeout
 raised TypeError

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index bc76803..eab8ba1 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -221,7 +221,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while not self.terminated and \
+                    (timeout is None or time.monotonic() - started_elapsing < timeout):
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From 15a60a8b12cc02fdabee72808c4455f9365a0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 18/95] fix: safe_wait_condition raised ResourceLocked if the
 condition was in use

---
 satella/coding/concurrent/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index eab8ba1..b5f1a1b 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -387,7 +387,7 @@ class TerminableThread(threading.Thread):
             try:
                 condition.wait(ttw)
                 return
-            except WouldWaitMore:
+            except (WouldWaitMore, ResourceLocked):
                 pass
         if not dont_raise:
             raise WouldWaitMore()
-- 
2.43.0


From 464e541e0802f6ce077d997564b1e6f20cdf26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 19/95] fix: two concurrent DeferredValue.set_value could both
 succeed

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From b12d3415ab921233a986001b7078909bd2daffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 20/95] fix: concurrent Closeable.close() calls could both be
 told to clean up

---
 satella/coding/misc.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..fb3eaf3 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -1,4 +1,5 @@
 import enum
+import threading
 import typing as tp
 import warnings
 from inspect import Parameter, signature
@@ -60,6 +61,10 @@ def contains(needle, haystack) -> bool:
     return False
 
 
+# reentrant, because the garbage collector may call close() while it's held
+_close_lock = threading.RLock()
+
+
 class Closeable:
     """
     A class that needs to clean up its own resources.
@@ -111,12 +116,13 @@ class Closeable:
         :return: whether the cleanup should proceed
         :raises RuntimeError: the constructor was not invoked
         """
-        try:
-            return not self.__finalized
-        except AttributeError:
-            warnings.warn('Attempted to clean up a non-initialized object', UserWarning)
-        finally:
-            self.__finalized = True
+        with _close_lock:
+            try:
+                return not self.__finalized
+            except AttributeError:
+                warnings.warn('Attempted to clean up a non-initialized object', UserWarning)
+            finally:
+                self.__finalized = True
 
     def __del__(self) -> None:
         self.close()
-- 
2.43.0


From b42c1f2a0d5fb5c775825cf657ab5b9ec67c54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:37 +0000
Subject: [PATCH 21/95] fix: memoize executed the function many times when
 called concurrently

---
 satella/coding/decorators/decorators.py | 29 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..b0e1b26 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -1,4 +1,5 @@
 import inspect
+import threading
 import time
 import typing as tp
 import warnings
@@ -206,17 +207,31 @@ def memoize(fun):
     from satella.coding.concurrent.monitor import MonitorDict, Monitor
 
     fun.memoizer = MonitorDict()
+    in_progress = {}        # arguments => (thread executing the function, event set when it's done)
 
     @wraps(fun)
     def inner(*args, **kwargs):
-        with Monitor.acquire(fun.memoizer):
-            if args in fun.memoizer:
-                return fun.memoizer[args]
-            else:
-                with Monitor.release(fun.memoizer):
-                    v = fun(*args, **kwargs)
+        me = threading.get_ident()
+        while True:
+            with Monitor.acquire(fun.memoizer):
+                if args in fun.memoizer:
+                    return fun.memoizer[args]
+                thread, done = in_progress.get(args, (me, None))
+                if thread == me:
+                    if done is None:
+                        in_progress[args] = me, threading.Event()
+                    break
+            done.wait()
+
+        try:
+            v = fun(*args, **kwargs)
+            with Monitor.acquire(fun.memoizer):
                 fun.memoizer[args] = v
-                return v
+            return v
+        finally:
+            if done is None:
+                with Monitor.acquire(fun.memoizer):
+                    in_progress.pop(args)[1].set()
 
     return inner
 
-- 
2.43.0


From 70bc5d67a2fc1541510abff7580a35795df1a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:10 +0000
Subject: [PATCH 22/95] fix: expiring dictionaries lost entries, raised
 KeyErrors and deadlocked with their cleanup thread

Reading an expired ExpiringEntryDict entry left the dictionary inconsistent, so that later in, len and
iteration raised KeyError and killed the cleanup thread; reads were not synchronized and could delete an
entry just set; del of a missing key raised ValueError. Iterating while holding the monitor, as the
documentation recommends, deadlocked. An error in one dictionary stopped the cleanup of all.
SelfCleaningDefaultDict iterated over nothing and contained everything.
---
 .../structures/dictionaries/expiring.py       | 57 ++++++++++++-------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..3aebe0c 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -1,15 +1,18 @@
+import logging
 import threading
 import time
 import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
-from satella.coding.recast_exceptions import rethrow_as, silence_excs
+from satella.coding.concurrent.monitor import Monitor, RMonitor
+from satella.coding.recast_exceptions import log_exceptions, rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
 from satella.coding.typing import K, V, NoArgCallable
 
+logger = logging.getLogger(__name__)
+
 
 class Cleanupable(metaclass=ABCMeta):
     @abstractmethod
@@ -42,23 +45,26 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
             time.sleep(5)
             self.cleanup()
 
-    @Monitor.synchronized
     def cleanup(self) -> None:
-        new_entries = []
-        for index, ref in enumerate(self.entries):
+        with Monitor.acquire(self):
+            self.entries = [ref for ref in self.entries if ref() is not None]
+            entries = self.entries
+
+        # not holding the monitor, as whoever is holding a dict might be calling add_dict()
+        for ref in entries:
             obj = ref()
             if obj is not None:
-                obj.cleanup()
-                new_entries.append(ref)
-        self.entries = new_entries
+                with log_exceptions(logger, swallow_exception=True):
+                    obj.cleanup()
+            del obj     # so as not to keep it alive until the next cleanup
 
     @Monitor.synchronized
     def add_dict(self, ed: Cleanupable) -> None:
-        self.entries.append(weakref.ref(ed))
+        self.entries = self.entries + [weakref.ref(ed)]
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -82,6 +88,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
     All args and kwargs will be passed to a dict, which will be promptly added to this dictionary.
     """
 
+    @RMonitor.synchronized
     def __len__(self) -> int:
         self.cleanup()
         return len(self.data)
@@ -97,15 +104,20 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         if self.background_maintenance:
             ExpiringEntryDictThread().add_dict(self)
 
+    @RMonitor.synchronized
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(list(self.data))    # entries may disappear during the iteration
 
+    def __contains__(self, item) -> bool:
+        return item in self.data
+
+    @RMonitor.synchronized
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
     def __getitem__(self, item: K) -> V:
         try:
             v = self.data[item]
@@ -118,7 +130,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 self.data[item] = obj
             return obj
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
     def __setitem__(self, key: K, value: V) -> None:
         value_equal = value == self.default_value
         if key in self.data:
@@ -128,7 +140,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         if not value_equal:
             self.data[key] = value
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
     @silence_excs(KeyError)  # because entries may disappear without warning
     def cleanup(self) -> None:
         for key in list(self.data.keys()):
@@ -136,7 +148,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
@@ -155,6 +167,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
     All args and kwargs will be passed to a dict, which will be promptly added to this dictionary.
     """
 
+    @RMonitor.synchronized
     def __len__(self) -> int:
         self.cleanup()
         return len(self.data)
@@ -176,6 +189,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @RMonitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -196,31 +210,34 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         """
         return self.key_to_expiration_time.item_to_timestamp[key]
 
+    @RMonitor.synchronized
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return iter(self.data)
+        return iter(list(self.data))    # entries may disappear during the iteration
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
     def cleanup(self) -> None:
         """Remove entries that are later than given time"""
         for ts, key in self.key_to_expiration_time.pop_less_than(self.time_getter()):
             del self.data[key]
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
     def __setitem__(self, key: K, value: V) -> None:
         self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
         self.data[key] = value
 
+    @RMonitor.synchronized
     @rethrow_as(ValueError, KeyError)
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
 
-    @Monitor.synchronized
+    @RMonitor.synchronized
+    @rethrow_as(ValueError, KeyError)
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From 4df16364e861098cc9b7a691ef4088310ad7b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 23/95] fix: CacheDict and LRUCacheDict ignored their clock in
 reads, raced with refreshes and could hang

---
 .../structures/dictionaries/cache_dict.py     | 162 +++++++++---------
 1 file changed, 78 insertions(+), 84 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..a5dead3 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 import time
 import typing as tp
 from concurrent.futures import ThreadPoolExecutor, Executor, Future
@@ -91,31 +92,26 @@ class CacheDict(tp.Mapping[K, V]):
         """
         Feed this data into the cache
         """
-        self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        if timestamp is None:
+            timestamp = self.time_getter()
+        with self.lock:
+            self.data[key] = value
+            self.timestamp_data[key] = timestamp
+            self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
         Is provided key cached, or failure about it is cached?
         """
-        if key in self.data:
-            try:
-                # an additional check, since this is a concurrent data structure and
-                # we aren't locking
-                v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
-            except KeyError:
-                v = False
-            return v
-
-        if self.cache_failures:
-            if key in self.cache_missed:
-                try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
-                except KeyError:
-                    v = False
-                return v
-
-        return False
+        with self.lock:
+            if key in self.data:
+                interval = self.expiration_interval
+            elif key in self.cache_missed:
+                interval = self.cache_failures_interval
+            else:
+                return False
+            timestamp = self.timestamp_data[key]
+        return self.time_getter() - timestamp <= interval
 
     def __init__(self, stale_interval: tp.Union[float, int, str], expiration_interval: tp.Union[float, int, str],
                  value_getter: tp.Callable[[K], V],
@@ -132,6 +128,8 @@ class CacheDict(tp.Mapping[K, V]):
         if value_getter_executor is None:
             value_getter_executor = ThreadPoolExecutor(max_workers=4)
         self.value_getter_executor = value_getter_executor
+        # guards the three structures below, reentrant since they are used by the subclasses as well
+        self.lock = threading.RLock()
         self.data = {}  # type: tp.Dict[K, V]
         self.timestamp_data = {}  # type: tp.Dict[K, float]
         self.cache_missed = set()  # type: tp.Set[K]
@@ -163,10 +161,11 @@ class CacheDict(tp.Mapping[K, V]):
 
         It is expected that invalidate(key) will be always called before
         """
-        self.invalidate(key)
-        if self.cache_failures:
-            self.cache_missed.add(key)
-            self.timestamp_data[key] = self.time_getter()
+        with self.lock:
+            self.invalidate(key)
+            if self.cache_failures:
+                self.cache_missed.add(key)
+                self.timestamp_data[key] = self.time_getter()
 
     def schedule_a_fetch(self, key: K) -> Future:
         """
@@ -188,7 +187,6 @@ class CacheDict(tp.Mapping[K, V]):
         future.add_done_callback(on_done_callback)
         return future
 
-    @silence_excs(KeyError)
     def invalidate(self, key: K) -> None:
         """
         Remove all information about given key from the cache
@@ -200,53 +198,60 @@ class CacheDict(tp.Mapping[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        del self[key]
+        with self.lock:
+            if key in self.cache_missed:
+                self.cache_missed.remove(key)
+                del self.timestamp_data[key]
+            with silence_excs(KeyError):
+                del self[key]
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-        if key in self.cache_missed:
-            if now - timestamp > self.cache_failures_interval:
-                return self.get_value_block(key)
+        if now - timestamp > self.cache_failures_interval:
+            return self.get_value_block(key)
+        else:
+            if self.default_value_factory:
+                return self.default_value_factory()
             else:
-                if self.default_value_factory:
-                    return self.default_value_factory()
-                else:
-                    raise KeyError('Cached a miss')
+                raise KeyError('Cached a miss')
 
     def __getitem__(self, key: K) -> V:
-        if key not in self.data and key not in self.cache_missed:
+        with self.lock:
+            missed = key in self.cache_missed
+            present = missed or key in self.data
+            if present:
+                timestamp = self.timestamp_data[key]
+                value = self.data.get(key)
+
+        if not present:
             return self.get_value_block(key)
 
-        timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
-        if key in self.cache_missed:
+        if missed:
             return self._on_cache_hit_empty(key, timestamp, now)
         else:
-            return self._on_cache_hit(key, timestamp, now)
+            return self._on_cache_hit(key, value, timestamp, now)
 
-    def _on_cache_hit(self, key: K, timestamp: float, now: float) -> V:
+    def _on_cache_hit(self, key: K, value: V, timestamp: float, now: float) -> V:
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
         elif now - timestamp > self.stale_interval:
             self.schedule_a_fetch(key)
-            return self.data[key]
-        else:
-            return self.data[key]
+        return value
 
     def __delitem__(self, key: K) -> None:
-        del self.data[key]
-        del self.timestamp_data[key]
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
+        with self.lock:
+            del self.data[key]
+            del self.timestamp_data[key]
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        self.data[key] = value
-        self.timestamp_data[key] = self.time_getter()
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
+        with self.lock:
+            self.data[key] = value
+            self.timestamp_data[key] = self.time_getter()
+            self.cache_missed.discard(key)
 
 
 class LRUCacheDict(CacheDict[K, V]):
@@ -266,55 +271,44 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Assure that there's place for at least one element
         """
-        while len(self) > self.max_size - 1:
-            self.evict()
+        with self.lock:
+            while len(self) > self.max_size - 1:
+                self.evict()
 
     @silence_excs(KeyError)
     def evict(self):
-        key = self.lru.get_item_to_evict()
-        self.invalidate(key)
-
-    @silence_excs(KeyError)
-    def invalidate(self, key: K) -> None:
-        """
-        Remove all information about given key from the cache
-
-        Syntactic sugar for:
-
-        >>> try:
-        >>>   del self[key]
-        >>> except KeyError:
-        >>>   pass
-        """
-        super().invalidate(key)
-        self.lru.remove(key)
+        with self.lock:
+            key = self.lru.get_item_to_evict()
+            self.invalidate(key)
 
     def __getitem__(self, key: K) -> V:
-        self.lru.mark_as_used(key)
+        with self.lock:
+            if key in self.data:    # LRU has to have precisely the keys that we've got
+                self.lru.mark_as_used(key)
         return super().__getitem__(key)
 
-    def get_value_block(self, key: K) -> V:
-        v = super().get_value_block(key)
-        self.lru.add(key)
-        return v
-
     def __delitem__(self, key: K) -> None:
-        super().__delitem__(key)
-        self.lru.remove(key)
+        with self.lock:
+            super().__delitem__(key)
+            with silence_excs(KeyError):    # it's not there if it's being evicted
+                self.lru.remove(key)
 
     def feed(self, key: K, value: V, timestamp: tp.Optional[float] = None):
         """
         Feed this data into the cache
         """
-        if key not in self.data:
-            self.make_room()
-        super().feed(key, value, timestamp)
-        self.lru.add(key)
+        with self.lock:
+            if key not in self.data:
+                self.make_room()
+            super().feed(key, value, timestamp)
+            self.lru.add(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        self.make_room()
-        self.lru.mark_as_used(key)
-        super().__setitem__(key, value)
+        with self.lock:
+            if key not in self.data:
+                self.make_room()
+            self.lru.mark_as_used(key)
+            super().__setitem__(key, value)
-- 
2.43.0


From b64965ec21da80fceaa3b0e684fc013ea2019498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:55 +0000
Subject: [PATCH 24/95] fix: ExclusiveWritebackCache reordered writes, cached
 overwritten values and deadlocked in concurrent syncs

---
 .../dictionaries/writeback_cache.py           | 127 +++++++++++++-----
 .../metrics/structures/cache_dict.py          |   2 +-
 2 files changed, 97 insertions(+), 32 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..44ed240 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -1,11 +1,12 @@
-import time
+import collections
 import typing as tp
-from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
+from concurrent.futures import Executor, Future, ThreadPoolExecutor, ProcessPoolExecutor, wait
 
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -27,7 +28,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'pending', 'reading')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -49,6 +50,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        self.pending = {}       # key => calls to the storage that are yet to complete, in order
+        self.reading = {}       # key => token, present if a read in progress can be cached
 
     def get_queue_length(self) -> int:
         """
@@ -56,7 +59,9 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         """
         # noinspection PyProtectedMember
         if isinstance(self.executor, ThreadPoolExecutor):
-            return self.executor._work_queue.qsize()
+            with self.cache_lock:
+                waiting = sum(len(calls) - 1 for calls in self.pending.values())
+            return waiting + self.executor._work_queue.qsize()
         elif isinstance(self.executor, ProcessPoolExecutor):
             return self.executor._call_queue.qsize()
         else:
@@ -69,13 +74,58 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
+        if isinstance(self.executor, ProcessPoolExecutor):
+            sync_threadpool(self.executor, max_wait=timeout)
+        with self.cache_lock:
+            # calls concerning a key are done in order, so it is enough to wait for the last one
+            futures = [calls[-1][0] for calls in self.pending.values()]
+        if wait(futures, timeout=timeout).not_done:
+            raise WouldWaitMore('timeout exceeded')
+
+    def _enqueue(self, key: K, fun: tp.Callable, *args) -> tp.Callable[[], Future]:
+        """
+        Register a call to the storage. Calls concerning a key are done one by one, in the
+        order of their registration.
+
+        To be called with cache_lock held.
+
+        :return: a callable to call after releasing the lock, returns a Future of the call
+        """
+        if isinstance(self.executor, ProcessPoolExecutor):
+            return lambda: self.executor.submit(fun, *args)
+        future = Future()
+        calls = self.pending.setdefault(key, collections.deque())
+        calls.append((future, fun, args))
+        if len(calls) > 1:
+            return lambda: future
 
-        def fix():
-            return
+        def start() -> Future:
+            try:
+                self.executor.submit(self._process, key)
+            except BaseException:
+                with self.cache_lock:
+                    del self.pending[key]
+                raise
+            return future
+        return start
 
-        sync_threadpool(self.executor, max_wait=timeout)
+    def _process(self, key: K) -> None:
+        calls = self.pending[key]
+        while calls:
+            future, fun, args = calls[0]
+            result = exception = None
+            try:
+                result = fun(*args)
+            except BaseException as e:  # pylint: disable=broad-except
+                exception = e
+            with self.cache_lock:
+                calls.popleft()
+                if not calls:
+                    del self.pending[key]
+            if exception is None:
+                future.set_result(result)
+            else:
+                future.set_exception(exception)
 
     def _operate(self):
         self.operations += 1
@@ -86,38 +136,53 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
 
     def __getitem__(self, item: K) -> V:
         self._operate()
-        if item not in self.in_cache:
-            try:
-                value = self.executor.submit(self.read_method, item).result()
-                with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
-                return value
-            except KeyError:
-                if self.store_key_errors:
-                    with self.cache_lock:
-                        self.in_cache.add(item)
-                raise
-        else:
-            if item not in self.cache and self.store_key_errors:
-                raise KeyError()
-            else:
+        with self.cache_lock:
+            if item in self.in_cache:
+                if item not in self.cache:
+                    raise KeyError(item)
                 return self.cache[item]
+            token = self.reading.setdefault(item, object())
+            start_reading = self._enqueue(item, self.read_method, item)
+        try:
+            value = start_reading().result()
+        except KeyError:
+            self._has_read(item, token, self.store_key_errors)
+            raise
+        except BaseException:
+            self._has_read(item, token, False)
+            raise
+        else:
+            self._has_read(item, token, True, value)
+            return value
+
+    def _has_read(self, item: K, token: object, remember: bool, *value: V) -> None:
+        with self.cache_lock:
+            if self.reading.get(item) is not token:
+                return      # written or deleted in the meantime, or already cached
+            del self.reading[item]
+            if remember:
+                self.in_cache.add(item)
+                if value:
+                    self.cache[item], = value
 
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            with silence_excs(KeyError):
+                del self.cache[key]
+            self.reading.pop(key, None)
+            start_deleting = self._enqueue(key, self.delete_method, key)
+        start_deleting()
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self.reading.pop(key, None)
+            start_writing = self._enqueue(key, self.write_method, key, value)
+        start_writing()
         self._operate()
diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From 6bbdfb78888f1ca00460d4d0d61fc28aa9abfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:05 +0000
Subject: [PATCH 25/95] fix: CPManager deadlocked in invalidate and leaked
 connections released after close

---
 satella/coding/resources/cp_manager.py | 45 +++++++++++++-------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..61564cf 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -7,7 +7,6 @@ import warnings
 
 from ..concurrent import Monitor
 from ..misc import Closeable
-from ..recast_exceptions import silence_excs
 from ..typing import T
 
 logger = logging.getLogger(__name__)
@@ -44,7 +43,7 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         Monitor.__init__(self)
         if sys.implementation.name != 'cpython':
             warnings.warn(f'This may run bad on {sys.implementation.name}', RuntimeWarning)
-        self.connections = queue.Queue(max_number)
+        self.connections = queue.Queue()
         self.max_number = max_number
         self.max_cycle_no = max_cycle_no
         self.id_to_times = {}  # type: tp.Dict[int, int]
@@ -52,18 +51,26 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
 
     def close(self) -> None:
         if super().close():
-            self.terminating = True
+            with Monitor.acquire(self):
+                self.terminating = True
             self.invalidate()
 
-    @Monitor.synchronized
     def invalidate(self) -> None:
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
-            self.teardown_connection(conn)
-            del self.id_to_times[id(conn)]
+        exception = None
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:
+                break
+            try:
+                self._kill_connection(conn)
+            except Exception as e:
+                exception = e
+        if exception is not None:
+            raise exception
 
     def acquire_connection(self) -> T:
         """
@@ -77,14 +84,7 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         try:
             conn = self.connections.get(False)
         except queue.Empty:
-            while True:
-                with silence_excs(queue.Empty), Monitor.acquire(self):
-                    if self.connections.qsize() >= self.max_number:
-                        conn = self.connections.get(False, 5)
-                        break
-                    else:
-                        conn = self.create_connection()
-                        break
+            conn = self.create_connection()
         with Monitor.acquire(self):
             obj_id = id(conn)
             self.id_to_times[obj_id] = self.id_to_times.get(obj_id, 0) + 1
@@ -96,14 +96,13 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
 
         :param connection: connection to release
         """
-        obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
+        with Monitor.acquire(self):
+            keep = not self.terminating and self.id_to_times[id(connection)] < self.max_cycle_no \
+                   and self.connections.qsize() < self.max_number
+            if keep:
+                self.connections.put(connection)
+        if not keep:
             self._kill_connection(connection)
-        else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
-                self._kill_connection(connection)
 
     def _kill_connection(self, connection):
         obj_id = id(connection)
-- 
2.43.0


From b5d7be1a0d7bd58d23ade576f436edb4c6fb8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:52 +0000
Subject: [PATCH 26/95] fix: SyncableDroppable lost, duplicated and did not
 serve entries; was not thread-safe

---
 .../coding/structures/syncable_droppable.py   | 198 ++++++++----------
 1 file changed, 84 insertions(+), 114 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..3b7cfd5 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -1,5 +1,4 @@
 import bisect
-import itertools
 import math
 import typing as tp
 import warnings
@@ -128,8 +127,8 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
 
     @start_entry.setter
     def start_entry(self, v: tp.Optional[K]) -> None:
-        self._start_entry = v
         self.db_storage.on_change_start_entry(v)
+        self._start_entry = v
 
     @property
     def synced_up_to(self) -> tp.Optional[K]:
@@ -137,8 +136,8 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
 
     @synced_up_to.setter
     def synced_up_to(self, v: tp.Optional[K]) -> None:
-        self._synced_up_to = v
         self.db_storage.on_change_synced_up_to(v)
+        self._synced_up_to = v
 
     @property
     def stop_entry(self) -> tp.Optional[K]:
@@ -146,17 +145,28 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
 
     @stop_entry.setter
     def stop_entry(self, v: tp.Optional[K]) -> None:
-        self._stop_entry = v
         self.db_storage.on_change_stop_entry(v)
+        self._stop_entry = v
 
     @RMonitor.synchronized
     def sync_to_db(self) -> None:
         """
         Make sure that everything's that in memory in also stored in the DB.
         """
-        for key, value in self.data_in_memory:
-            self.db_storage.put(key, value)
-        self.data_in_memory = []
+        self._eject_to_db(len(self.data_in_memory))
+
+    def _eject_to_db(self, count: int) -> None:
+        """
+        Move this many entries from the memory to the DB
+        """
+        moved = 0
+        try:
+            for key, value in self.data_in_memory[:count]:
+                self.db_storage.put(key, value)
+                moved += 1
+        finally:
+            # those that have made it to the DB cannot stay in memory even if the DB has failed
+            del self.data_in_memory[:moved]
 
     def cleanup(self) -> None:
         """
@@ -190,7 +200,6 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 # This means that we have wiped entire DB
                 if self.data_in_memory:
                     self.start_entry = self.data_in_memory[0][0]
-                    self.db_storage.on_change_start_entry(self.start_entry)
                 else:
                     # We no longer have ANY data
                     self.start_entry = self.stop_entry = None
@@ -208,31 +217,34 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
-            # We'll serve it from memory
-            for key, value in self.data_in_memory:
+        with RMonitor.acquire(self):
+            in_memory = self.data_in_memory[:]
+            last_key = self.stop_entry
+
+        def iterate() -> tp.Iterator[KVTuple]:
+            if not in_memory or start < in_memory[0][0]:
+                it = self.db_storage.iterate(start)
+                try:
+                    for key, value in it:
+                        if key < start:
+                            continue
+                        if last_key is None or key > stop or key > last_key:
+                            return
+                        if in_memory and key >= in_memory[0][0]:
+                            break   # it has been moved to the DB in the meantime
+                        yield key, value
+                finally:
+                    try_close(it)
+            for key, value in in_memory:
                 if key < start:
                     continue
                 if key > stop:
                     return
                 yield key, value
-        else:
-            it = self.db_storage.iterate(start)
-            try:
-                for key, value in it:
-                    if key < start:
-                        continue
-                    if key > stop:
-                        return
-                    yield key, value
-                # We must iterate from the memory
-                if self.data_in_memory:
-                    yield from self.get_archive(self.first_key_in_memory, stop)
-            finally:
-                try_close(it)
 
+        return iterate()
+
+    @RMonitor.synchronized
     def get_latest_value(self) -> KVTuple:
         """
         Get the piece of data that was added here last
@@ -245,11 +257,18 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         if self.data_in_memory:
             return self.data_in_memory[-1]
         else:
-            iterator = self.db_storage.iterate(self.stop_entry)
-            try:
-                return next(iterator)
-            finally:
-                iterator.close()
+            latest = None
+            # None, because the stop entry might have never made it to the DB
+            for starting_key in (self.stop_entry, None):
+                iterator = self.db_storage.iterate(starting_key)
+                try:
+                    for latest in iterator:
+                        pass
+                finally:
+                    try_close(iterator)
+                if latest is not None:
+                    return latest
+            raise ValueError('No data in series')
 
     @RMonitor.synchronized
     def cleanup_keep_in_memory(self) -> None:
@@ -260,38 +279,26 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         if first_key is None:
             return
         cutoff_point = self.stop_entry - self.span_to_keep_in_memory
-        for index, row in enumerate(self.data_in_memory):
-            ts, value = row
-            if ts > cutoff_point:
-                for ts, value in self.data_in_memory[:index]:
-                    self.db_storage.put(ts, value)
-                del self.data_in_memory[:index]
-                break
-        else:
-            self.sync_to_db()
-            self.data_in_memory = []
-            return
+        keys = [key for key, value in self.data_in_memory]
+        self._eject_to_db(bisect.bisect_right(keys, cutoff_point))
 
     @RMonitor.synchronized
     def cleanup_keep_in_db(self) -> None:
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None or self.stop_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
-        if self.start_entry == self.first_key_in_memory:
+        if self._cleanup_the_db() and self.data_in_memory:
             # The entire series is loaded in the memory
             self.data_in_memory = [tpl for tpl in self.data_in_memory if tpl[0] >= cutoff_span]
             if self.data_in_memory:
                 self.start_entry = self.first_key_in_memory
             else:
                 self.start_entry = self.stop_entry = None
-        else:
-            if not self._cleanup_the_db():
-                return
-            self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -306,67 +313,12 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             if key <= self.stop_entry:
                 raise ValueError('Key not greater than current stop entry!')
 
-        self.data_in_memory.append((key, value))
-        self.stop_entry = key
         if self.start_entry is None:
             self.start_entry = key
+        self.stop_entry = key
+        self.data_in_memory.append((key, value))
 
-    def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
-            raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
-            raise ValueError('Nothing to synchronize!')
-
-    def _on_sync_request_synced_up_none(self, maximum_entries):
-        # Sync everything
-        iterator = self.db_storage.iterate(None)
-        try:
-            data = list(iterator)
-            if len(data) < maximum_entries:
-                entries_left = maximum_entries - len(data)
-                if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
-                else:
-                    data = itertools.chain(data, self.data_in_memory[:entries_left])
-            return data
-        finally:
-            try_close(iterator)
-
-    def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
-
-    def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
-            # Means we have to sync from memory
-            if self.synced_up_to is None:
-                v = self.data_in_memory
-            else:
-                index = bisect.bisect_right([y[0] for y in self.data_in_memory],
-                                            self.synced_up_to)
-                if maximum_entries == math.inf:
-                    v = self.data_in_memory[index:]
-                else:
-                    v = self.data_in_memory[index:index + maximum_entries]
-        else:
-            # We have to start off the disk
-            data = []
-            iterator = self.db_storage.iterate(self.start_entry)
-            try:
-                v = self.__append_item(data, iterator, maximum_entries)
-            finally:
-                try_close(iterator)
-        return v
-
+    @RMonitor.synchronized
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
@@ -378,14 +330,32 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :return: an iterator of (KVTuple) that should be synchronized against the server
         :raise ValueError: nothing to synchronize!
         """
-        self._assert_correctness(maximum_entries)
-
-        if self.synced_up_to is None:
-            v = self._on_sync_request_synced_up_none(maximum_entries)
-        else:
-            v = self._on_sync_request_synced_up_is_not_none(maximum_entries)
-        return v
+        data = []
+        if self.stop_entry is not None and maximum_entries > 0:
+            first_key, synced_up_to = self.first_key_in_memory, self.synced_up_to
+            if first_key is None or synced_up_to is None or synced_up_to < first_key:
+                # We have to start off the disk
+                iterator = self.db_storage.iterate(synced_up_to)
+                try:
+                    for key, value in iterator:
+                        if synced_up_to is not None and key <= synced_up_to:
+                            continue
+                        if len(data) >= maximum_entries or \
+                                (first_key is not None and key >= first_key):
+                            break
+                        data.append((key, value))
+                finally:
+                    try_close(iterator)
+            for key, value in self.data_in_memory:
+                if len(data) >= maximum_entries:
+                    break
+                if synced_up_to is None or key > synced_up_to:
+                    data.append((key, value))
+        if not data:
+            raise ValueError('Nothing to synchronize!')
+        return iter(data)
 
+    @RMonitor.synchronized
     def on_synced_up_to(self, key: K) -> None:
         """
         Called when data was successfully synced up to key included
-- 
2.43.0


From f11601c20824c1308d60bf23c39fb46085f75abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 27/95] fix: a resumed measure forgot the time measured before,
 sleep could raise ValueError

---
 satella/time/measure.py | 11 +++++------
 satella/time/misc.py    |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..236e065 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -194,10 +194,8 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is None:
             raise TypeError('the counter is already running!')
 
-        if self.stopped_on is not None:
-            self.started_on = self.time_getter_callable() - self.elapsed
-            self.stopped_on = None
-        self.started_on = self.time_getter_callable()
+        self.started_on = self.time_getter_callable() - self.elapsed
+        self.stopped_on = None
         self.elapsed = None
 
     def update(self) -> None:
@@ -212,8 +210,9 @@ class measure:  # pylint: disable=invalid-name
         """
         :return: currently elapsed time
         """
-        if self.stop_on_stop and self.elapsed is not None:
-            return self.elapsed
+        elapsed = self.elapsed
+        if self.stop_on_stop and elapsed is not None:
+            return elapsed
         return self.time_getter_callable() - self.started_on
 
     def __call__(self, fun: tp.Optional[tp.Callable] = None) -> float:
diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..3550e97 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -27,7 +27,7 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
     with measure() as measurement:
         while measurement() < y:
             try:
-                time.sleep(y - measurement())
+                time.sleep(max(0.0, y - measurement()))
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
-- 
2.43.0


From 64cc7fbdf79c4bc3f4c97aa2c0bf8c20c4c6247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:50 +0000
Subject: [PATCH 28/95] fix: ExponentialBackoff waits overslept or missed a
 success, retry miscalled its callbacks

---
 satella/coding/decorators/retry_dec.py |  8 +++----
 satella/time/backoff.py                | 30 ++++++++++----------------
 2 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..81b4bec 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -64,14 +64,14 @@ def retry(times: tp.Optional[int] = None,
             for i in iterator:
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
+                    if call_between_retries is not None and i + 1 != times:
                         call_between_retries(e)
                     continue
+                if call_on_success is not None:
+                    call_on_success(i)
+                return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..8945de6 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -3,7 +3,6 @@ import typing as tp
 
 from satella.coding.decorators.decorators import wraps
 from satella.coding.typing import ExceptionList
-from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
 
@@ -79,25 +78,24 @@ class ExponentialBackoff:
             WouldWaitMore will be raised
         :raises WouldWaitMore: waited for timeout and service still was not healthy
         """
-        with measure(timeout=timeout) as m:
-            while not m.timeouted:
+        with measure(timeout=timeout) as m, self.condition:
+            # holding the condition while checking, lest a success() in between goes unnoticed
+            while True:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                m.assert_not_timeouted()
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
-            raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until
+        if unavailable_until is None:
             return None
-        else:
-            t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
-                return None
-            else:
-                return self.unavailable_until - t
+        t = time.monotonic()
+        return None if t >= unavailable_until else unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -105,13 +103,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From e23f634c7b414591ef4af313205ec1da8a8449bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:11 +0000
Subject: [PATCH 29/95] fix: PIDFileLock could be held by two processes,
 crashed on races and reported itself held after a failure

---
 satella/os/pidlock.py | 81 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..ecd2444 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -4,6 +4,21 @@ import psutil
 
 from satella.exceptions import ResourceLocked
 
+try:
+    import fcntl
+except ImportError:
+    # Windows?
+    fcntl = None
+
+
+def _lock_file(file) -> None:
+    """Hold off other processes that want this file locked until it is closed"""
+    if fcntl is not None:
+        try:
+            fcntl.flock(file, fcntl.LOCK_EX)
+        except OSError:
+            pass  # this filesystem does not support it
+
 
 class PIDFileLock:
     """
@@ -54,29 +69,53 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
+        while True:
+            try:
+                fd = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+                created = True
+            except FileExistsError:
+                try:
+                    fd = os.open(self.path, os.O_RDONLY)
+                except FileNotFoundError:
+                    continue  # its holder has just released it
+                created = False
+
+            # the file is written to, examined and disposed of if stale only with the file locked, and only if it
+            # still is the file that others would open
+            with os.fdopen(fd, 'w' if created else 'r') as file:
+                _lock_file(file)
+                if created:
+                    if not self._is_current(file):
+                        continue
+                    self._write_pid(file)
+                    self.file_no = fd
+                    return True
+
+                try:
+                    pid = int(file.read().strip())
+                except ValueError:
+                    pid = None
+
+                if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
+                    raise ResourceLocked(pid)
+                # the holder does not exist. It might have released the lock before that
+                if self._is_current(file):
+                    os.unlink(self.path)
+
+    def _is_current(self, file) -> bool:
         try:
-            self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
-        except (OSError, FileExistsError):
-            with open(self.path, 'r') as fin:
-                data = fin.read().strip()
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.path))
+        except FileNotFoundError:
+            return False
 
-            try:
-                pid = int(data)
-            except ValueError:
-                os.unlink(self.path)
-                return self.acquire()
-
-            if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
-            else:
-                # does not exist
-                os.unlink(self.path)
-                return self.acquire()
-
-        fd = os.fdopen(self.file_no, 'w')
-        fd.write(str(os.getpid()) + '\n')
-        fd.close()
-        return True
+    def _write_pid(self, file) -> None:
+        try:
+            file.write(str(os.getpid()) + '\n')
+            file.flush()  # so that nobody finds it unlocked and empty
+            file.close()
+        except BaseException:
+            os.unlink(self.path)
+            raise
 
     def __enter__(self) -> None:
         self.acquire()
-- 
2.43.0


From bfc9bcfa13d90a792e279186a9ac91f82451778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 30/95] fix: GlobalExcepthook skipped other hooks if stderr was
 closed when one failed

---
 satella/exception_handling/global_eh.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/satella/exception_handling/global_eh.py b/satella/exception_handling/global_eh.py
index 4305dfd..c5ac964 100644
--- a/satella/exception_handling/global_eh.py
+++ b/satella/exception_handling/global_eh.py
@@ -2,7 +2,7 @@ import sys
 import threading
 import typing as tp
 
-from satella.coding import wraps
+from satella.coding import wraps, silence_excs
 from satella.coding.structures import Singleton
 from satella.instrumentation import Traceback
 from .exception_handlers import BaseExceptionHandler, FunctionExceptionHandler, \
@@ -20,11 +20,12 @@ class GlobalExcepthook:
 
     Always installed
     """
-    __slots__ = ('installed_hooks', 'ignore_failed_hooks', 'old_excepthook')
+    __slots__ = ('installed_hooks', 'ignore_failed_hooks', 'old_excepthook', 'lock')
 
     def __init__(self):
         self.installed_hooks = []  # type: tp.List[BaseExceptionHandler]
         self.ignore_failed_hooks = True  # type: bool
+        self.lock = threading.Lock()
         self.__install()
 
     def remove_hook(self, hook: BaseExceptionHandler):
@@ -34,7 +35,8 @@ class GlobalExcepthook:
         :param hook: hook to remove
         :raise ValueError: if hook not in list
         """
-        self.installed_hooks.remove(hook)
+        with self.lock:
+            self.installed_hooks.remove(hook)
 
     def add_hook(self, new_hook: tp.Union[
         tp.Callable, BaseExceptionHandler]) -> BaseExceptionHandler:
@@ -47,8 +49,9 @@ class GlobalExcepthook:
         if not isinstance(new_hook, BaseExceptionHandler):
             new_hook = FunctionExceptionHandler(new_hook)
 
-        if new_hook not in self.installed_hooks:
-            self.installed_hooks.append(new_hook)
+        with self.lock:
+            if new_hook not in self.installed_hooks:
+                self.installed_hooks.append(new_hook)
 
         return new_hook
 
@@ -98,9 +101,10 @@ class GlobalExcepthook:
                 if hook.handle_exception(type_, value, traceback):
                     break
             except Exception as e:
-                tb = Traceback()
-                sys.stderr.write('Error while processing a hook: \n')
-                tb.pretty_print(output=sys.stderr)
+                # stderr might be closed, and this must not keep the exception from other hooks
+                with silence_excs(Exception):
+                    sys.stderr.write('Error while processing a hook: \n')
+                    Traceback().pretty_print(output=sys.stderr)
 
                 if not self.ignore_failed_hooks:
                     raise NotImplementedError(
-- 
2.43.0


From 4f5d356b0d066db46320d2e54a479b0d8a7fd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 31/95] fix: MemoryErrorExceptionHandler did not kill if stderr
 was closed, could be installed twice

---
 satella/exception_handling/memerrhandler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/satella/exception_handling/memerrhandler.py b/satella/exception_handling/memerrhandler.py
index 640fd33..ffe9c40 100644
--- a/satella/exception_handling/memerrhandler.py
+++ b/satella/exception_handling/memerrhandler.py
@@ -34,6 +34,12 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
 
         from .global_eh import GlobalExcepthook
         GlobalExcepthook().add_hook(self)
+        self.installed = True
+        return self
+
+    def uninstall(self):
+        super().uninstall()
+        self.installed = False
 
     def handle_exception(self, type_, value, traceback) -> tp.Optional[bool]:
         if not issubclass(type_, MemoryError):
@@ -59,8 +65,8 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
             sys.stderr.write(
                 'satella.exception_handling: MemoryError seen, killing\n')
             sys.stderr.flush()
-        except (IOError, OSError):
-            pass
+        except Exception:
+            pass  # stderr might be closed or None
 
         suicide(self.kill_pg)
 
-- 
2.43.0


From 41602b271373bac7a7c85dd59d62182f0033797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 32/95] fix: Traceback failed on variables with a failing repr
 or added meanwhile, from_json lost values

---
 satella/instrumentation/trace_back/classes.py    | 13 +++++++++----
 satella/instrumentation/trace_back/trace_back.py | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..c3fedf1 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -117,7 +117,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
@@ -137,7 +138,10 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        try:
+            self.repr = repr(value)  # type: str
+        except Exception as e:
+            self.repr = '<repr unavailable due to %s>' % (type(e).__name__,)
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
@@ -223,11 +227,12 @@ class StackFrame(JSONAble):
         self.lineno = frame.f_lineno  # type: int
 
         self.locals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_locals.items():
+        for key, value in tuple(frame.f_locals.items()):
             self.locals[key] = StoredVariableValue(value, policy)
 
         self.globals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_globals.items():
+        # other threads might be changing them
+        for key, value in tuple(frame.f_globals.items()):
             self.globals[key] = StoredVariableValue(value, policy)
 
     def __eq__(self, other: 'StackFrame') -> bool:
diff --git a/satella/instrumentation/trace_back/trace_back.py b/satella/instrumentation/trace_back/trace_back.py
index bd65862..dca1b29 100644
--- a/satella/instrumentation/trace_back/trace_back.py
+++ b/satella/instrumentation/trace_back/trace_back.py
@@ -42,6 +42,7 @@ class Traceback(JSONAble):
         Must be either None, in which case an exception must be in progress and will be taken
         else must be an instance of <class 'frame'>.
     :param policy: policy for traceback generation
+    :param exc_info: a tuple of (type, value, traceback) to use instead of the exception in progress
     :raise ValueError: there is no traceback to get info from!
         Is any exception in process?
      """
@@ -54,7 +55,8 @@ class Traceback(JSONAble):
         return ''.join(out)
 
     def __init__(self, starting_frame: tp.Optional[types.FrameType] = None,
-                 policy=GenerationPolicy):
+                 policy=GenerationPolicy,
+                 exc_info: tp.Optional[tuple] = None):
         if inspect.isclass(policy):
             value_pickling_policy = policy()
         else:
@@ -62,8 +64,11 @@ class Traceback(JSONAble):
 
         self.frames = []  # type: tp.List[StackFrame]
 
+        if exc_info is None:
+            exc_info = sys.exc_info()
+
         if starting_frame is None:
-            tb = sys.exc_info()[2]
+            tb = exc_info[2]
             if tb is not None:
                 f = frame_from_traceback(tb)
             else:
@@ -75,7 +80,7 @@ class Traceback(JSONAble):
             self.frames.append(StackFrame(f, value_pickling_policy))
             f = f.f_back
 
-        self.formatted_traceback = str(traceback.format_exc())
+        self.formatted_traceback = ''.join(traceback.format_exception(*exc_info))
 
     def __eq__(self, other: 'Traceback') -> bool:
         return self.frames == other.frames
-- 
2.43.0


From 7828d2819fa5d807e11d8a4ffc4f669c83525596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 33/95] fix: DumpToFileHandler dumped no exception of the main
 thread, one failed stream lost the others

---
 satella/exception_handling/dump_to_file.py | 63 +++++++++++++++-------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..10daa46 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -3,6 +3,7 @@ from __future__ import print_function, absolute_import, division
 import enum
 import logging
 import os
+import threading
 import typing as tp
 import uuid
 from logging import Logger
@@ -25,7 +26,7 @@ class StreamType(enum.IntEnum):
 
 
 class AsStream:
-    __slots__ = ('o', 'human_readable', 'mode', 'file', 'level', 'logger')
+    __slots__ = ('o', 'human_readable', 'mode', 'file', 'level', 'logger', 'lock')
 
     def __init__(self, o: AsStreamTypeAccept, human_readable: bool):
         """
@@ -37,6 +38,7 @@ class AsStream:
         """
         self.o = o
         self.human_readable = human_readable
+        self.lock = threading.RLock()  # one dump at a time
 
         if isinstance(o, str):
             if os.path.isdir(o):
@@ -60,9 +62,14 @@ class AsStream:
             raise TypeError('invalid stream object')
 
     def __enter__(self) -> tp.Union[tp.TextIO, tp.BinaryIO]:
+        self.lock.acquire()
         if self.mode == StreamType.MODE_FILE:
-            self.file = open(self.o, 'w' if self.human_readable else 'wb',
-                             encoding='utf8' if self.human_readable else None)
+            try:
+                self.file = open(self.o, 'w' if self.human_readable else 'wb',
+                                 encoding='utf8' if self.human_readable else None)
+            except BaseException:
+                self.lock.release()
+                raise
             return self.file.__enter__()
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
@@ -71,13 +78,16 @@ class AsStream:
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
-        if self.mode == StreamType.MODE_FILE:
-            return self.file.__exit__(exc_type, exc_val, exc_tp)
-        elif self.mode == StreamType.MODE_STREAM:
-            with silence_excs(AttributeError):
-                self.o.flush()
-        elif self.mode == StreamType.MODE_DEVNULL:
-            pass
+        try:
+            if self.mode == StreamType.MODE_FILE:
+                return self.file.__exit__(exc_type, exc_val, exc_tp)
+            elif self.mode == StreamType.MODE_STREAM:
+                with silence_excs(AttributeError):
+                    self.o.flush()
+            elif self.mode == StreamType.MODE_DEVNULL:
+                pass
+        finally:
+            self.lock.release()
 
 
 class DumpToFileHandler(BaseExceptionHandler):
@@ -107,19 +117,32 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            # by the time sys.excepthook is called the exception is no longer in progress
+            tb = Traceback(exc_info=(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
 
-        for q in self.hr:
-            if q.mode == StreamType.MODE_LOGGER:
-                q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
-            else:
-                with q as f:
-                    f.write('Unhandled exception caught: \n')
-                    tb.pretty_print(output=f)
+        error = None
+        for q, dump in [(q, self._dump_hr) for q in self.hr] + [(q, self._dump_pickle) for q in self.tb]:
+            try:
+                dump(q, value, tb)
+            except Exception as e:
+                error = error or e  # other streams still need this dump
 
-        for q in self.tb:
+        if error is not None:
+            raise error
+
+    @staticmethod
+    def _dump_hr(q: AsStream, value, tb: Traceback) -> None:
+        if q.mode == StreamType.MODE_LOGGER:
+            q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
+        else:
             with q as f:
-                f.write(tb.pickle())
+                f.write('Unhandled exception caught: \n')
+                tb.pretty_print(output=f)
+
+    @staticmethod
+    def _dump_pickle(q: AsStream, value, tb: Traceback) -> None:
+        with q as f:
+            f.write(tb.pickle())
-- 
2.43.0


From a329f799b246916ce904e2b088db76390cda0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 34/95] fix: transaction left the cursor and connection open if
 commit or rollback failed, refused getters that are not functions

---
 satella/db.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..eb8853f 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -1,6 +1,7 @@
-import inspect
 import logging
 
+from satella.coding.recast_exceptions import silence_excs
+
 logger = logging.getLogger(__name__)
 
 
@@ -31,12 +32,19 @@ class transaction:
         self.log_exception = log_exception
 
     def __enter__(self):
-        self.cursor = self.connection.cursor()
+        connection = self.connection
+        try:
+            self.cursor = connection.cursor()
+        except BaseException:
+            if self.close_the_connection_after:
+                connection.close()
+            raise
         return self.cursor
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        # connections of some databases are callable themselves
+        if callable(self._connection) and not hasattr(self._connection, 'cursor'):
             conn = self._connection()
             self._connection = conn
             return conn
@@ -44,17 +52,27 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
         if exc_val is not None and self.log_exception:
             logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
 
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            try:
+                if exc_val is None:
+                    self._commit()
+                else:
+                    self.connection.rollback()
+            finally:
+                self.cursor.close()
+        finally:
+            if self.close_the_connection_after:
+                self.connection.close()
 
         return False
+
+    def _commit(self):
+        try:
+            self.connection.commit()
+        except BaseException:
+            with silence_excs(Exception):  # what matters is why the commit has failed
+                self.connection.rollback()
+            raise
-- 
2.43.0


From b98a32903282e5af6a976cb0717bad9fd685df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 35/95] fix: call_and_return_stdout hung on outputs over the
 capacity of a pipe, broke characters split between reads

---
 satella/processes.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..3d0941b 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
@@ -78,13 +76,13 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
         proc.kill()
         proc.wait()
         raise TimeoutError('Process did not complete within %s seconds' % (timeout,))
-    finally:
-        fut.result()
 
-    if encoding is None:
-        result = b''.join(stdout_list)
-    else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+    fut.result()
+
+    result = b''.join(stdout_list)
+    if encoding is not None:
+        # a character might have been split between reads
+        result = result.decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From f840ee032f977e74798735fbd544fb1331492b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 36/95] fix: hang_until_sig ignored SIGINT, did not restore
 handlers of signals given twice or after an exception

---
 satella/os/signals.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..3ae9ab6 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -27,21 +27,19 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     global end
     extra_signals = extra_signals or ()
 
-    old_term = signal.getsignal(signal.SIGTERM)
+    end = False  # the previous use might have left it set
     olds = []
 
-    # Set the signal handler
-    signal.signal(signal.SIGTERM, __sighandler)
-    for s in extra_signals:
-        olds.append(signal.getsignal(s))
-        signal.signal(s, __sighandler)
-
-    while not end:
-        sleep(sleep_interval, True)
-
-    # Unset the signal handler
-    signal.signal(signal.SIGTERM, old_term)
-    for s, old_handler in zip(extra_signals, olds):
-        signal.signal(s, old_handler)
-
-    end = False  # reset for next use
+    try:
+        # Set the signal handler
+        for s in (signal.SIGINT, signal.SIGTERM, *extra_signals):
+            old_handler = signal.signal(s, __sighandler)
+            olds.append((s, old_handler))
+
+        while not end:
+            sleep(sleep_interval, True)
+    finally:
+        # Unset the signal handler. The same signal might have been given twice
+        for s, old_handler in reversed(olds):
+            # it is None if it was not set from Python
+            signal.signal(s, signal.SIG_DFL if old_handler is None else old_handler)
-- 
2.43.0


From 5702eba87fcbf39e85af11ba0890cd1545c0357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 37/95] fix: metrics lost updates reported by several threads,
 snapshots failed while clicks were reported

---
 .../metrics/metric_types/base.py              | 28 +++++++++++--------
 .../metrics/metric_types/counter.py           | 14 ++++++----
 .../metrics/metric_types/cps.py               | 19 ++++++++-----
 .../metrics/metric_types/histogram.py         | 28 ++++++++++++-------
 .../metrics/metric_types/summary.py           | 22 +++++++++------
 5 files changed, 69 insertions(+), 42 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..888b265 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -1,4 +1,5 @@
 import enum
+import threading
 import time
 import typing as tp
 
@@ -96,9 +97,11 @@ class Metric:
     @property
     def level(self) -> MetricLevel:
         metric = self
-        while metric._level == MetricLevel.INHERIT:
+        level = metric._level
+        while level == MetricLevel.INHERIT:
             metric = metric.root_metric
-        return metric._level
+            level = metric._level
+        return level
 
     @level.setter
     @for_argument(None, MetricLevel)
@@ -185,11 +188,13 @@ class EmbeddedSubmetrics(LeafMetric):
     constructor actually stores them!
     Refer to :py:class:`.cps.ClicksPerTimeUnitMetric` on how to do that.
     """
-    __slots__ = ('args', 'kwargs', 'embedded_submetrics_enabled', 'children_mapping')
+    __slots__ = ('args', 'kwargs', 'embedded_submetrics_enabled', 'children_mapping', 'lock')
 
     def __init__(self, name, root_metric: 'Metric' = None, metric_level: str = None,
                  labels: tp.Optional[dict] = None, internal: bool = False, *args, **kwargs):
         super().__init__(name, root_metric, metric_level, labels, internal, *args, **kwargs)
+        # handle() and to_metric_data() may be called by any number of threads
+        self.lock = threading.RLock()
         self.args = args  # type: tp.List
         self.kwargs = kwargs  # type: tp.Dict
         self.embedded_submetrics_enabled = False  # type: bool
@@ -206,15 +211,14 @@ class EmbeddedSubmetrics(LeafMetric):
         else:
             return
 
-        if key in self.children_mapping:
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
-        else:
-            clone = self.clone(labels)
-            self.children_mapping[key] = clone
-            self.children.append(clone)
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
+        with self.lock:
+            if key not in self.children_mapping:
+                clone = self.clone(labels)
+                self.children_mapping[key] = clone
+                self.children.append(clone)
+
+        # noinspection PyProtectedMember
+        self.children_mapping[key]._handle(*args)
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
diff --git a/satella/instrumentation/metrics/metric_types/counter.py b/satella/instrumentation/metrics/metric_types/counter.py
index afc4001..da6469b 100644
--- a/satella/instrumentation/metrics/metric_types/counter.py
+++ b/satella/instrumentation/metrics/metric_types/counter.py
@@ -31,6 +31,10 @@ class CounterMetric(EmbeddedSubmetrics, MeasurableMixin):
         self.value = 0  # type: float
 
     def to_metric_data(self) -> MetricDataCollection:
+        with self.lock:
+            return self._to_metric_data()
+
+    def _to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
             k = super().to_metric_data()
             if self.sum_children:
@@ -50,11 +54,11 @@ class CounterMetric(EmbeddedSubmetrics, MeasurableMixin):
         return p
 
     def _handle(self, delta: float = 0, **labels):
-        if self.embedded_submetrics_enabled or labels:
-            if self.sum_children:
+        with self.lock:
+            embedded = self.embedded_submetrics_enabled or labels
+            if self.sum_children or not embedded:
                 self.value += delta
             self.calls += 1
-            return super()._handle(delta, **labels)
 
-        self.value += delta
-        self.calls += 1
+        if embedded:
+            return super()._handle(delta, **labels)
diff --git a/satella/instrumentation/metrics/metric_types/cps.py b/satella/instrumentation/metrics/metric_types/cps.py
index 72ef9e5..c4dcaaf 100644
--- a/satella/instrumentation/metrics/metric_types/cps.py
+++ b/satella/instrumentation/metrics/metric_types/cps.py
@@ -35,15 +35,20 @@ class ClicksPerTimeUnitMetric(EmbeddedSubmetrics):
         if labels or self.embedded_submetrics_enabled:
             return super()._handle(**labels)
 
-        mono_time = time.monotonic()
-        self.last_clicks.append(time.monotonic())
-        try:
-            while self.last_clicks[0] <= mono_time - self.cutoff_period:
-                self.last_clicks.popleft()
-        except IndexError:
-            pass
+        with self.lock:
+            mono_time = time.monotonic()
+            self.last_clicks.append(time.monotonic())
+            try:
+                while self.last_clicks[0] <= mono_time - self.cutoff_period:
+                    self.last_clicks.popleft()
+            except IndexError:
+                pass
 
     def to_metric_data(self) -> tp.List[int]:
+        with self.lock:
+            return self._to_metric_data()
+
+    def _to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
             k = super().to_metric_data()
             if not self.aggregate_children:
diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..004351b 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -38,23 +38,31 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
         self.sum = 0.0  # type: float
 
     def _handle(self, value, **labels):
-        self.count += 1
-        self.sum += value
-
         if self.embedded_submetrics_enabled or labels:
             super()._handle(value, **labels)
+            count_buckets = self.aggregate_children
+        else:
+            count_buckets = True
+
+        with self.lock:
+            self.count += 1
+            self.sum += value
 
-            if not self.aggregate_children:
+            if not count_buckets:
                 return
 
-        lower_bound = 0.0
-        for index, upper_bound in itertools.chain(enumerate(self.bucket_limits),
-                                                  [(len(self.bucket_limits), math.inf)]):
-            if lower_bound <= value < upper_bound:
-                self.buckets[index] += 1
-            lower_bound = upper_bound
+            lower_bound = 0.0
+            for index, upper_bound in itertools.chain(enumerate(self.bucket_limits),
+                                                      [(len(self.bucket_limits), math.inf)]):
+                if lower_bound <= value < upper_bound:
+                    self.buckets[index] += 1
+                lower_bound = upper_bound
 
     def to_metric_data(self) -> MetricDataCollection:
+        with self.lock:
+            return self._to_metric_data()
+
+    def _to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
             k = super().to_metric_data()
             if self.aggregate_children:
diff --git a/satella/instrumentation/metrics/metric_types/summary.py b/satella/instrumentation/metrics/metric_types/summary.py
index 856ebe1..d846685 100644
--- a/satella/instrumentation/metrics/metric_types/summary.py
+++ b/satella/instrumentation/metrics/metric_types/summary.py
@@ -45,19 +45,25 @@ class SummaryMetric(EmbeddedSubmetrics, MeasurableMixin):
         self.tot_time = 0  # type: float
 
     def _handle(self, time_taken: float, **labels) -> None:
-        if self.count_calls:
-            self.tot_calls += 1
-            self.tot_time += time_taken
+        with self.lock:
+            if self.count_calls:
+                self.tot_calls += 1
+                self.tot_time += time_taken
 
-        if labels or self.embedded_submetrics_enabled:
-            return super()._handle(time_taken, **labels)
+            if not labels and not self.embedded_submetrics_enabled:
+                if len(self.calls_queue) == self.last_calls:
+                    self.calls_queue.pop()
 
-        if len(self.calls_queue) == self.last_calls:
-            self.calls_queue.pop()
+                self.calls_queue.appendleft(time_taken)
+                return
 
-        self.calls_queue.appendleft(time_taken)
+        return super()._handle(time_taken, **labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        with self.lock:
+            return self._to_metric_data_with_count()
+
+    def _to_metric_data_with_count(self) -> MetricDataCollection:
         k = self._to_metric_data()
         if self.count_calls:
             k += MetricData(self.name + '.count', self.tot_calls, self.labels, self.get_timestamp(),
-- 
2.43.0


From fc8d370f9ae38322f22539e47d04506d11b1048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 38/95] fix: linkfail exported nothing of links with labels,
 one status for all addresses, lost concurrent reports

---
 .../metrics/metric_types/linkfail.py          | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..8ae1127 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -49,24 +49,37 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
         if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
-        if success:
-            self.consecutive_failures[address] = 0
-            self.consecutive_successes[address] += 1
-            if not self.working[address]:
-                if self.consecutive_successes[address] == self.consecutive_successes_to_online:
-                    self.working[address] = True
-                    self.callback_on_online(address, self.labels)
-        else:
-            self.consecutive_failures[address] += 1
-            self.consecutive_successes[address] = 0
+            return super()._handle(success, address, *args, **labels)
 
-            if self.working[address]:
-                if self.consecutive_failures[address] == self.consecutive_failures_to_offline:
-                    self.working[address] = False
-                    self.callback_on_offline(address, self.labels)
+        callback = None
+        with self.lock:
+            if success:
+                self.consecutive_failures[address] = 0
+                self.consecutive_successes[address] += 1
+                if not self.working[address]:
+                    if self.consecutive_successes[address] == self.consecutive_successes_to_online:
+                        self.working[address] = True
+                        callback = self.callback_on_online
+            else:
+                self.consecutive_failures[address] += 1
+                self.consecutive_successes[address] = 0
+
+                if self.working[address]:
+                    if self.consecutive_failures[address] == self.consecutive_failures_to_offline:
+                        self.working[address] = False
+                        callback = self.callback_on_offline
+
+        if callback is not None:
+            callback(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        with self.lock:
+            return self._to_metric_data()
+
+    def _to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
+
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
@@ -81,5 +94,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From f24b9ee2beaf66196c8dcf8bbca856ff87294418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 39/95] fix: labeled submetrics were exported even if internal,
 with the timestamp of their first update

---
 .../instrumentation/metrics/metric_types/base.py    | 13 +++++++++----
 .../metrics/metric_types/histogram.py               | 12 ++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 888b265..66bae87 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -167,7 +167,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
@@ -217,8 +217,11 @@ class EmbeddedSubmetrics(LeafMetric):
                 self.children_mapping[key] = clone
                 self.children.append(clone)
 
+        child = self.children_mapping[key]
+        if self.enable_timestamp:
+            child.last_updated = self.last_updated
         # noinspection PyProtectedMember
-        self.children_mapping[key]._handle(*args)
+        child._handle(*args)
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
@@ -243,8 +246,10 @@ class EmbeddedSubmetrics(LeafMetric):
         and having a particular set of labels, and being of level INHERIT.
         """
 
-        return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+        clone = self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
+                               **self.kwargs)
+        clone.internal = self.internal
+        return clone
 
 
 from .registry import register_metric
diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 004351b..fdfa6e6 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -68,14 +68,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From 63ba5913981ccad990b9bf3a1f6c48b708592899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 40/95] fix: getMetric gave kwargs to parents too, a failed
 call left a metric that was never exported

---
 satella/instrumentation/metrics/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..446672c 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -34,6 +34,8 @@ ALLOWED_CHARACTERS = string.ascii_uppercase + string.digits + ':' + '_' + '.'
 def _process_metric(name, name_index, metric_level, metric_level_to_set_for_children, name_part, root_metric,
                     metric_name, metric_type, kwargs):
     tentative_name = '.'.join(name[:name_index])
+    if tentative_name != metric_name:
+        kwargs = {}     # these are meant for the last metric only
     if tentative_name not in metrics:
         if tentative_name == '':
             metric = Metric('',
@@ -49,9 +51,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
                             **kwargs)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From cd6f5d7facb781cf9155c87ef4faedbad360fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 41/95] fix: measure_future gave a wrong time if several
 metrics measured the same future

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From b37a4c12833e7ace12ee25ac92643e59fe3e396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 42/95] fix: MetricDataCollection did not equal an equal one
 after prefix_with or postfix_with

---
 satella/instrumentation/metrics/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..828f9bb 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -131,11 +131,14 @@ class MetricDataCollection(JSONAble):
         """Prefix every child with given prefix and return self"""
         for child in self.values:
             child.prefix_with(prefix)
+        self.values = {child for child in self.values}  # hashes have changed
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
         for child in self.values:
             child.postfix_with(postfix)
+        self.values = {child for child in self.values}  # hashes have changed
         return self
 
     def __add_metric_data(self, other: MetricData):
-- 
2.43.0


From e951b5c8d088c2a5fcd56e84e1018114dff8c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:59 +0000
Subject: [PATCH 43/95] fix: a metric that was reset was still exported besides
 the one that replaced it, could not be reset twice

---
 satella/instrumentation/metrics/metric_types/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 66bae87..720760f 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -61,7 +61,10 @@ class Metric:
             with metrics.metrics_lock:
                 metrics.metrics = {k: v for k, v in metrics.metrics.items() if
                                    not k.startswith(self.get_fully_qualified_name() + '.')}
-                del metrics.metrics[self.get_fully_qualified_name()]
+                metrics.metrics.pop(self.get_fully_qualified_name(), None)
+                # getMetric() will make a new one, which will take the place of this one
+                self.root_metric.children = [child for child in self.root_metric.children
+                                             if child is not self]
         self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
-- 
2.43.0


From 5bca91e662befaa07b234895b4fa981dc3c3f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:05 +0000
Subject: [PATCH 44/95] fix: tasks of a MetrifiedThreadPoolExecutor that was
 collected were lost

---
 .../instrumentation/metrics/structures/threadpool.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..58ee11f 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -31,22 +31,21 @@ def _worker(executor_reference, work_queue, initializer, initargs):
         while True:
             work_item = work_queue.get(block=True)
             if work_item is not None:
-                # Measure the time spent in waiting
-                executor = executor_reference()
+                # Measure the time spent in waiting. The executor might have been collected already
+                waiting_time_metric, executing_time_metric, metric_level = work_item.metrics
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
-                del executor
+                waiting_time_metric.handle(metric_level, work_item.measure())
 
                 with measure() as measurement:
                     work_item.run()
 
-                executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                executing_time_metric.handle(metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
                 # attempt to increment idle count
 
+                executor = executor_reference()
                 if executor is not None:
                     executor._idle_semaphore.release()      # pylint: disable=protected-access
                 del executor
@@ -143,6 +142,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
             f = _base.Future()
             w = _WorkItem(f, fn, args, kwargs)
             w.measure = measure()
+            w.metrics = self.waiting_time_metric, self.executing_time_metric, self.metric_level
             self._work_queue.put(w)
             self._adjust_thread_count()
             return f
-- 
2.43.0


From 59a51e18d3606b6249439240c8e469ccaab686ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 45/95] fix: MetrifiedThreadPoolExecutor ignored
 thread_name_prefix

---
 satella/instrumentation/metrics/structures/threadpool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 58ee11f..b102179 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -93,7 +93,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
                  time_spent_executing=None,
                  waiting_tasks: tp.Optional[CallableMetric] = None,
                  metric_level: MetricLevel = MetricLevel.RUNTIME):
-        super().__init__(max_workers)
+        super().__init__(max_workers, thread_name_prefix)
         self._initializer = initializer
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
-- 
2.43.0


From 982c34dfa48bb87831ad874c7d8bbf857f2dd839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 46/95] fix: a cancelled task made MetrifiedThreadPoolExecutor
 leave the others pending when an initializer failed

---
 satella/instrumentation/metrics/structures/threadpool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index b102179..26a7009 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -181,5 +181,6 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
                     work_item = self._work_queue.get_nowait()
                 except queue.Empty:
                     break
-                if work_item is not None:
+                # those cancelled cannot have an exception set
+                if work_item is not None and work_item.future.set_running_or_notify_cancel():
                     work_item.future.set_exception(BrokenThreadPool(self._broken))
-- 
2.43.0


From a6ad925a18eb91cd45f64a4d1849f48b17cb6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:10 +0000
Subject: [PATCH 47/95] fix: PrometheusHTTPExporterThread hung on terminate if
 not serving, or on a silent client; metric had one period

---
 .../metrics/exporters/prometheus.py           | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..334e816 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -12,6 +12,8 @@ __all__ = ['metric_data_collection_to_prometheus', 'PrometheusHTTPExporterThread
 class PrometheusHandler(http.server.BaseHTTPRequestHandler):
     """A request handler for the PrometheusHTTPExporterThread HTTP server"""
 
+    timeout = 10        # so that a client that sends nothing does not block everyone else
+
     def do_GET(self):
         """only GETs are supported"""
         if self.path != '/metrics':
@@ -64,13 +66,17 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
-        self.httpd.server_bind()
-        self.httpd.server_activate()
-        self.httpd.serve_forever()
-        self.httpd.server_close()
+        try:
+            self.httpd.server_bind()
+            self.httpd.server_activate()
+            self.httpd.timeout = 0.5
+            while not self.terminating:
+                self.httpd.handle_request()
+        finally:
+            self.httpd.server_close()
 
     def get_metric_data(self) -> MetricDataCollection:
         """
@@ -80,17 +86,6 @@ class PrometheusHTTPExporterThread(TerminableThread):
         """
         return getMetric().to_metric_data()
 
-    def terminate(self, force: bool = False) -> 'PrometheusHTTPExporterThread':
-        """
-        Order this thread to terminate and return self.
-
-        You will need to .join() on this thread to ensure that it has quit.
-
-        :param force: whether to terminate this thread by injecting an exception into it
-        """
-        self.httpd.shutdown()
-        return super().terminate(force=force)
-
 
 class RendererObject(io.StringIO):
 
@@ -103,7 +98,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From b64e8d375544aa3fbb7a142d5f705be2ec00abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 48/95] fix: AutoflushFile refused the documented modes a+ and
 ab+

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..ae5e63b 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -455,7 +455,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From e7957d164157b4b513961f0e19bbfaafb5ab787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 49/95] fix: a failed flush or close made AutoflushFile
 unusable and left the file open

---
 satella/files.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index ae5e63b..f64ddac 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -462,7 +462,6 @@ class AutoflushFile(Proxy[io.FileIO]):
 
         fle = self._open_file()
         super().__init__(fle)
-        self.__dict__['pointer'] = fle.tell()
         self._close_file()
 
     @is_closed_getter
@@ -508,18 +507,18 @@ class AutoflushFile(Proxy[io.FileIO]):
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
-            ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
-            self.__dict__['pointer'] = ptr
+            self.__dict__['pointer'] = file.tell()
         return file
 
     def _close_file(self) -> None:
         file = self._get_file()
         if file is not None:
-            ptr = file.tell()
-            self.__dict__['pointer'] = ptr
-            file.close()
             self.__dict__['_Proxy__obj'] = None
+            try:
+                self.__dict__['pointer'] = file.tell()
+            finally:
+                file.close()
 
     @is_closed_getter
     @close_file_after
-- 
2.43.0


From 52222795a500ffada159d4d4c3a4410281dee9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 50/95] fix: AutoflushFile forgot the position between calls,
 so seek() had no effect

---
 satella/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index f64ddac..5ba1466 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -508,6 +508,8 @@ class AutoflushFile(Proxy[io.FileIO]):
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
             self.__dict__['_Proxy__obj'] = file
+            if self.__dict__['pointer'] is not None:
+                file.seek(self.__dict__['pointer'])
             self.__dict__['pointer'] = file.tell()
         return file
 
-- 
2.43.0


From 614dcf38178ac78dbfd12881e41f2ddaeef13020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 51/95] fix: AutoflushFile.readall() raised AttributeError

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 5ba1466..24c5221 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -501,7 +501,7 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
-- 
2.43.0


From 93ad18d4904ce4d6692e2cdb05e20635538f7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 52/95] fix: split() of an absolute path never ended

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 24c5221..6e137ed 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:     # this is the root
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From 49268ab2df4b10a5d4999eb993a117d7f954c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 53/95] fix: find_files() forgot apply_wildcard_to_entire_path
 in subdirectories

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 6e137ed..5398310 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -370,6 +370,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From 77e4e33b6e11056893e78f34014ccfd06a1b3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 54/95] fix: write_out_file_if_different() did not write if the
 old content could not be read

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 5398310..fc29fd6 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -407,7 +407,7 @@ def write_out_file_if_different(path: str, data: tp.Union[bytes, str],
             return True
         else:
             return False
-    except FileNotFoundError:
+    except OSError:
         write_to_file(path, data, encoding)
         return True
 
-- 
2.43.0


From 441a47ced267cfbf85511a2cdbf2a571881d2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 55/95] fix: try_unlink() did not unlink links to directories

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index fc29fd6..cf737ae 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -320,7 +320,7 @@ def try_unlink(path: str) -> bool:
     :param path: path of file to delete
     :return: whether the deletion happened
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         shutil.rmtree(path)
     else:
         os.unlink(path)
-- 
2.43.0


From 7aaeed6a31a4b191e7b9d04d7a727c3e88b6c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 56/95] fix: whereis() returned directories, and failed upon a
 looped link

---
 satella/os/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..29a5fd9 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -47,8 +47,9 @@ def safe_listdir(directory: str) -> tp.Iterator[str]:
 def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
-        with silence_excs(FileNotFoundError):
-            if 'x' in stat.filemode(os.stat(path).st_mode):
+        with silence_excs(OSError):
+            mode = os.stat(path).st_mode
+            if stat.S_ISREG(mode) and mode & 0o111:
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
 
-- 
2.43.0


From c49d9191944db4211690708ab0d3e5b1cca79d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:39 +0000
Subject: [PATCH 57/95] fix: read_in_file() silently dropped an incomplete
 character at the end of the file

---
 satella/files.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index cf737ae..892e675 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -265,20 +265,19 @@ def read_in_file(path: str, encoding: tp.Optional[str] = None,
         raise FileNotFoundError('%s found and is a directory' % (path,))
 
     try:
-        if encoding is None:
-            file = open(path, 'rb')
-        else:
-            file = codecs.open(path, 'r', encoding)
+        file = open(path, 'rb')
     except FileNotFoundError:
         if default is not _NOTSET:
             return default
         raise
 
     try:
-        return file.read()
+        data = file.read()
     finally:
         file.close()
 
+    return data if encoding is None else codecs.decode(data, encoding)
+
 
 def read_re_sub_and_write(path: str, pattern: tp.Union[re.compile, str],
                           repl: tp.Union[tp.Callable[[tp.Any], str]]) -> None:
-- 
2.43.0


From dce462bd74fd5dd95f7700798909449a5cb55b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 58/95] fix: leaving a nested Context dropped the outer one,
 entering one dropped its variables and parent

---
 satella/coding/environment.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..7661a44 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -23,6 +23,7 @@ class Context:
         self.parent = parent
         self.variables = variables
         self.bool = None
+        self._previous = None
 
     def __str__(self):
         return str(id(self))
@@ -56,8 +57,11 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
-        ctxt.parent = parent
+        if self is parent:
+            ctxt = Context(parent=parent)
+        else:
+            ctxt = Context(parent=parent if self.parent is None else self.parent, **self.variables)
+        ctxt._previous = parent
         local.thread_context = ctxt
         return ctxt
 
@@ -65,7 +69,7 @@ class Context:
         """
         Set a value
         """
-        if key in ('parent', 'variables', 'bool'):
+        if key in ('parent', 'variables', 'bool', '_previous'):
             return super().__setattr__(key, value)
         else:
             self.variables[key] = value
@@ -87,13 +91,11 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
-                del local.thread_context
-            except AttributeError:
-                pass
+        previous = Context.get()._previous
+        if previous is None:
+            del local.thread_context
         else:
-            local.thread_context = self.parent
+            local.thread_context = previous
         return False
 
     @staticmethod
-- 
2.43.0


From d604ce496ca35be3365ade169cb7bc6f12089942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 59/95] fix: LocalRelativeValue fired when there was enough
 memory

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From 83c85036eb111c9eecec0894f239a0d6c1bbd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 60/95] fix: an object registered for cleanup while a severity
 level was being entered was forgotten

---
 satella/instrumentation/memory/memthread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/memory/memthread.py b/satella/instrumentation/memory/memthread.py
index 10bfb4e..7b20ed2 100644
--- a/satella/instrumentation/memory/memthread.py
+++ b/satella/instrumentation/memory/memthread.py
@@ -99,13 +99,14 @@ class MemoryPressureManager(IntervalTerminableThread):
                 # Means we are ENTERING a severity level
                 self.severity_level += delta
                 self.callbacks_on_entered[self.severity_level]()
-                new_list = []
-                for ref, collector in self.objects_to_cleanup_on_entered[self.severity_level]:
+                entries = self.objects_to_cleanup_on_entered[self.severity_level]
+                for entry in list(entries):
+                    ref, collector = entry
                     obj = ref()
                     if obj is not None:
                         collector(obj)
-                        new_list.append((ref, collector))
-                self.objects_to_cleanup_on_entered[self.severity_level] = new_list
+                    else:
+                        entries.remove(entry)
                 if self.log_transitions:
                     logger.warning('Entered severity level %s' % (self.severity_level,))
             elif delta < 0:
-- 
2.43.0


From 050da18e5ca685de479e883a936c5d4e263e7268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 61/95] fix: two threads could start two CPU profile builders

---
 satella/instrumentation/cpu_time/collector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..2452b44 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import collections
 import multiprocessing
 import os
+import threading
 import time
 import typing as tp
 
@@ -22,6 +23,9 @@ pCPUtimes = collections.namedtuple('pcputimes',
                                     'iowait'], defaults=[0, 0, 0, 0, 0])
 
 
+instance_lock = threading.Lock()
+
+
 class _CPUProfileBuilderThread(SingleStartThread):
     """
     A CPU profile builder thread and a core singleton object to use.
@@ -52,8 +56,11 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def get_instance():
         """Access instances of this thread in this way ONLY!"""
         if _CPUProfileBuilderThread.thread is None:
-            _CPUProfileBuilderThread.thread = _CPUProfileBuilderThread()
-            _CPUProfileBuilderThread.thread.start()
+            with instance_lock:
+                if _CPUProfileBuilderThread.thread is None:
+                    thread = _CPUProfileBuilderThread()
+                    thread.start()
+                    _CPUProfileBuilderThread.thread = thread
         return _CPUProfileBuilderThread.thread
 
     def save_load(self, times: pCPUtimes) -> None:
-- 
2.43.0


From 68e32fee900a89dc928616f7b657d52f19be3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 62/95] fix: calculate_occupancy_factor() gave negative and
 absurd values if called by two threads

---
 satella/instrumentation/cpu_time/collector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index 2452b44..a601382 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -193,9 +193,15 @@ def sleep_cpu_aware(seconds: tp.Union[str, float], of_below: tp.Optional[float]
 
 previous_cf = None  # type: float
 previous_timestamp = None  # type: float
+occupancy_lock = threading.Lock()
 
 
 def _calculate_occupancy_factor() -> float:
+    with occupancy_lock:
+        return _calculate_occupancy_factor_locked()
+
+
+def _calculate_occupancy_factor_locked() -> float:
     c = psutil.cpu_times()
     try:
         try:
-- 
2.43.0


From b914a227e0436bb673cd0b50084133f1fcbd71b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 63/95] fix: CPU profile percentiles raised IndexError or were
 mixed up if one was requested during calculation

---
 satella/instrumentation/cpu_time/collector.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index a601382..be77abb 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -47,8 +47,7 @@ class _CPUProfileBuilderThread(SingleStartThread):
         self.data = []
         self.process = psutil.Process(os.getpid())
         self.percentiles_requested = list(percentiles_requested)
-        self.percentile_values = []
-        self.percentiles_regenerated = False
+        self.percentile_values = {}     # type: tp.Dict[float, float]
         self.started = False
         self.own_load_average = collections.deque()  # typing: tuple[float, pCPUtimes]
 
@@ -92,14 +91,13 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def request_percentile(self, percent: float) -> None:
         if percent not in self.percentiles_requested:
             self.percentiles_requested.append(percent)
-            self.percentiles_regenerated = False
 
     def percentile(self, percent: float) -> float:
         if not self.data:
             return 0
-        if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
-        else:
+        try:
+            return self.percentile_values[percent]
+        except KeyError:
             return percentile(self.data, percent)
 
     def is_done(self) -> bool:
@@ -112,12 +110,11 @@ class _CPUProfileBuilderThread(SingleStartThread):
         for _ in range(int(self.window_size)):
             time.sleep(1)
             data.append(calculate_occupancy_factor())
-        percentiles = []
+        percentiles = {}
         data.sort()
-        for percent in self.percentiles_requested:
-            percentiles.append(percentile(data, percent))
+        for percent in list(self.percentiles_requested):
+            percentiles[percent] = percentile(data, percent)
         self.percentile_values = percentiles
-        self.percentiles_regenerated = True
         self.data = data
 
     @repeat_forever
-- 
2.43.0


From 6c7b0d0371019996485e2be9dafea597875b62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 64/95] fix: CPUTimeAwareIntervalTerminableThread refused a
 time string with no max_sooner and ignored a max_sooner of 0

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 4d46d45aad2267872ae31fb3825d97ff6b9b8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 65/95] fix: FormatSource.provide() failed when called by two
 threads at once

Decode into a local variable, so that another thread does not find the content half decoded.
---
 satella/configuration/sources/format.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/configuration/sources/format.py b/satella/configuration/sources/format.py
index 6948d4a..f5a0d04 100644
--- a/satella/configuration/sources/format.py
+++ b/satella/configuration/sources/format.py
@@ -47,12 +47,13 @@ class FormatSource(BaseSource):
 
         with rethrow_as(tuple(cls.BASE_EXCEPTIONS + cls.EXTRA_EXCEPTIONS),
                         ConfigurationError):
-            if isinstance(self.root, bytes):
-                self.root = codecs.decode(self.root, self.encoding)
-                if isinstance(self.root, bytes):  # probably base64 encoded
-                    self.root = self.root.decode('utf-8')
+            root = self.root
+            if isinstance(root, bytes):
+                root = codecs.decode(root, self.encoding)
+                if isinstance(root, bytes):  # probably base64 encoded
+                    root = root.decode('utf-8')
 
-            ret_val = cls.TRANSFORM(self.root)
+            ret_val = cls.TRANSFORM(root)
             if not isinstance(ret_val, dict):
                 raise ConfigurationError(
                     'provider was unable to generate a text volume')
-- 
2.43.0


From dc403372fc3467d1d62e6a5683ffeef360fb073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 66/95] fix: MergingSource altered the configuration of the
 sources that it merges

merge_dicts() updates in-place, so the nested dicts and lists of an earlier source grew with those of a later one,
and more so upon each provide().
---
 satella/configuration/sources/derivative.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..e53ca5d 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -1,3 +1,5 @@
+import copy
+
 from satella.coding.algos import merge_dicts
 from satella.exceptions import ConfigurationError
 from .base import BaseSource
@@ -7,6 +9,18 @@ __all__ = [
 ]
 
 
+def _copy_containers(v):
+    """Copy the dicts and the lists, which merge_dicts() would update in-place"""
+    if isinstance(v, dict):
+        v = copy.copy(v)
+        for key in v:
+            v[key] = _copy_containers(v[key])
+    elif isinstance(v, list):
+        v = copy.copy(v)
+        v[:] = map(_copy_containers, v)
+    return v
+
+
 class AlternativeSource(BaseSource):
     """
     If first source of configuration fails with ConfigurationError, use the next one instead, ad
@@ -96,7 +110,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, _copy_containers(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
-- 
2.43.0


From 3b88d28f23463d17e77ace01c38a25a54b6e61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 67/95] fix: HTTPJSONSource returned JSON that is not a dict
 instead of raising ConfigurationError

An AlternativeSource or an OptionalSource then failed with AssertionError instead of using the next source. With a
requests older than 2.27 a body that is no JSON made for a ValueError as well.
---
 satella/configuration/sources/file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..089eaba 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -139,14 +139,17 @@ else:
             self.method = method  # type: str
             self.kwargs = kwargs  # type: tp.Dict[str, tp.Any]
 
-        @rethrow_as(requests.RequestException, ConfigurationError)
+        @rethrow_as((requests.RequestException, ValueError), ConfigurationError)
         def provide(self) -> dict:
             r = requests.request(self.method, self.url, **self.kwargs)
             if r.status_code >= 400:
                 raise ConfigurationError(
                     'Target responded with HTTP %s' % (r.status_code,))
 
-            return r.json()
+            data = r.json()
+            if not isinstance(data, dict):
+                raise ConfigurationError('%s is not a dict instance' % (data,))
+            return data
 
 
     __all__.append('HTTPJSONSource')
-- 
2.43.0


From 76ed94fbdab89010ff0233b9fce7b6ff496a4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:18 +0000
Subject: [PATCH 68/95] fix: Subqueue.get_any() and qsize() raised RuntimeError
 if another thread used a new queue

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From 9c641c22fb2688c4f1938b2e12864c48f1b229af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:18 +0000
Subject: [PATCH 69/95] fix: queue_get() took a queue.Empty raised by the
 function for its queue being empty

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
-- 
2.43.0


From 13a73d2a97713a9e0f18ee8df670b588894218ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:55 +0000
Subject: [PATCH 70/95] fix: a function decorated with rethrow_as or
 silence_excs lost its result if a nested call was silenced

Whether an exception was silenced was kept per thread, so a call made during another one of the same decorator changed
it for that one, too.
---
 satella/coding/recast_exceptions.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..32b984f 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import threading
 import typing as tp
 import warnings
 
@@ -233,7 +232,7 @@ class rethrow_as:
         is used as as decorator
     :raises ValueError: you specify both returns and returns_factory
     """
-    __slots__ = 'mapping', 'exception_preprocessor', 'returns', '__exception_remapped', 'returns_factory'
+    __slots__ = 'mapping', 'exception_preprocessor', 'returns', 'returns_factory'
 
     def __init__(self, *pairs: ExceptionList,
                  exception_preprocessor: tp.Optional[tp.Callable[[Exception], str]] = repr,
@@ -259,35 +258,26 @@ class rethrow_as:
         if self.returns is not None and self.returns_factory is not None:
             raise ValueError('You can specify only one of (returns, returns_factory)')
 
-        # this is threading.local because two threads may execute the same function at the
-        # same time, and exceptions from one function would leak to another
-        self.__exception_remapped = threading.local()
-
     def __call__(self, fun: tp.Callable) -> tp.Callable:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+            # This means that the normal flow of execution was interrupted
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
 
         return inner
 
     def __enter__(self):
-        self.__exception_remapped.was_raised = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-                    self.__exception_remapped.was_raised = True
                     if to is None:
                         return True
                     raise to(self.exception_preprocessor(exc_val))
-- 
2.43.0


From 907315ea90d3c393dc1725a9774f6761a0e91fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:55 +0000
Subject: [PATCH 71/95] fix: trace_future() never finished the span of a
 cancelled future and did not attach exceptions

The exception of a future is not the one being handled when its callbacks run, so sys.exc_info() gave nothing.
---
 satella/opentracing/trace.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..65bec34 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,5 +1,4 @@
 import copy
-import sys
 import typing as tp
 import warnings
 from concurrent.futures import Future
@@ -83,11 +82,10 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
+        exc = None if fut.cancelled() else fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
+            Span._on_error(span, type(exc), exc, exc.__traceback__)
         span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From 0c233f9c8b7927734f91a99351a118adf9175817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 72/95] fix: daemonize() could not set a group by its name, or
 any group together with a user

The group database has getgrnam() only, and a process that is not the root any more cannot change its group.
---
 satella/os/daemon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..c45e1d8 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -1,6 +1,5 @@
 import os
 import sys
-import types
 import typing as tp
 
 try:
@@ -58,15 +57,16 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
-    _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    # the group first, since it cannot be changed once we're not the root
+    _parse_ug(gid, grp.getgrnam, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd.getpwnam, 'pw_uid', os.seteuid)
 
 
-def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
+def _parse_ug(no: tp.Union[str, int], resolve: tp.Callable, field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            no = getattr(resolve(no), field_name)
         osfun(no)
 
 
-- 
2.43.0


From 1a0e7ec30bcee16d70041ae1ae0f9c6cce8c62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 73/95] fix: print() raised TypeError in a process made into a
 daemon

The standard streams are text streams.
---
 satella/os/daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index c45e1d8..07915de 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -71,9 +71,9 @@ def _parse_ug(no: tp.Union[str, int], resolve: tp.Callable, field_name: str,
 
 
 def _redirect_descriptors_to_null() -> None:
-    sys.stdin = open(DEVNULL, 'rb')
-    sys.stdout = open(DEVNULL, 'wb')
-    sys.stderr = open(DEVNULL, 'wb')
+    sys.stdin = open(DEVNULL, 'r')
+    sys.stdout = open(DEVNULL, 'w')
+    sys.stderr = open(DEVNULL, 'w')
 
 
 def _close_descriptors() -> None:
-- 
2.43.0


From 0277b84119e674c2d809d4df7d06f5bbaf9eaa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 74/95] fix: daemonize() raised AttributeError in a process
 started with a standard stream closed

---
 satella/os/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 07915de..8c54c48 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -78,7 +78,8 @@ def _redirect_descriptors_to_null() -> None:
 
 def _close_descriptors() -> None:
     for d in [sys.stdin, sys.stdout, sys.stderr]:
-        d.close()
+        if d is not None:       # the process might have been started without it
+            d.close()
 
 
 def _double_fork(exit_via: tp.Callable[[], None]) -> None:
-- 
2.43.0


From 017f7d99a89723a57df6addb37f78c0a006a0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 75/95] fix: TimeBasedHeap.get_timestamp compares the item
 itself

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index a8fd630..5e58dc4 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -75,7 +75,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 7b656950a4c6b2ad19785886fb52b9a3f81e88cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 76/95] fix: copies of time heaps and
 TimeBasedSetHeap.push_many keep the items

---
 satella/coding/structures/heaps/time.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 5e58dc4..8a59de2 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -57,6 +58,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        new = self.__class__(self.default_clock_source)
+        new.push_many(self.data)
+        return new
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        new = self.__class__(self.default_clock_source)
+        new.push_many(copy.deepcopy(self.data, memo))
+        return new
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -197,6 +208,16 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        new = self.__class__(self.default_clock_source)
+        new.push_many(self.data)
+        return new
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        new = self.__class__(self.default_clock_source)
+        new.push_many(copy.deepcopy(self.data, memo))
+        return new
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
@@ -235,6 +256,10 @@ class TimeBasedSetHeap(Heap):
         super().push(item)
         self.item_to_timestamp[item[1]] = item[0]
 
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
     def pop(self) -> tp.Tuple[Number, T]:
         item = super().pop()
         del self.item_to_timestamp[item[1]]
-- 
2.43.0


From de65bea5a308851708ed024b35122afe689e21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 77/95] fix: TimeBasedSetHeap forgets the timestamps of removed
 items

---
 satella/coding/structures/heaps/time.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 8a59de2..abf64ad 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -5,7 +5,7 @@ import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures.heaps.base import Heap
-from satella.coding.typing import T, Number, NoArgCallable
+from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
 class _TimeEntry(tuple):
@@ -260,6 +260,11 @@ class TimeBasedSetHeap(Heap):
         for item in items:
             self.push(item)
 
+    def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
+                   map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
+
     def pop(self) -> tp.Tuple[Number, T]:
         item = super().pop()
         del self.item_to_timestamp[item[1]]
-- 
2.43.0


From f231954ef6e89e334b2088a868b478744b399d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 78/95] fix: malformed documents made configuration sources
 raise AttributeError and RecursionError

PyYAML (with "!!timestamp x") and toml (with "[a]" and then "[[a]]") raise
AttributeError, and all but ujson RecursionError for what is nested too deeply.
---
 satella/configuration/sources/file.py   | 2 +-
 satella/configuration/sources/format.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 089eaba..36952df 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -139,7 +139,7 @@ else:
             self.method = method  # type: str
             self.kwargs = kwargs  # type: tp.Dict[str, tp.Any]
 
-        @rethrow_as((requests.RequestException, ValueError), ConfigurationError)
+        @rethrow_as((requests.RequestException, ValueError, RecursionError), ConfigurationError)
         def provide(self) -> dict:
             r = requests.request(self.method, self.url, **self.kwargs)
             if r.status_code >= 400:
diff --git a/satella/configuration/sources/format.py b/satella/configuration/sources/format.py
index f5a0d04..9ece150 100644
--- a/satella/configuration/sources/format.py
+++ b/satella/configuration/sources/format.py
@@ -30,7 +30,7 @@ class FormatSource(BaseSource):
 
     TRANSFORM = _override_me
     BASE_EXCEPTIONS = [TypeError, UnicodeDecodeError, ValueError,
-                       binascii.Error, LookupError]
+                       binascii.Error, LookupError, AttributeError, RecursionError]
     EXTRA_EXCEPTIONS = []
 
     def __init__(self, root: tb.Union[bytes, str], encoding: str = 'utf-8'):
-- 
2.43.0


From cd21e49c4aaa36b5cc6539ee1deac72e6c1cf34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 79/95] fix: import of satella.configuration failed unless
 satella.coding had been imported

satella.configuration.schema and satella.coding import each other, and this
works only if satella.coding comes first.
---
 satella/configuration/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/__init__.py b/satella/configuration/__init__.py
index 5d2c95b..2141c3c 100644
--- a/satella/configuration/__init__.py
+++ b/satella/configuration/__init__.py
@@ -1,3 +1,4 @@
+import satella.coding   # first, as it makes use of .schema in turn
 from . import schema
 from . import sources
 
-- 
2.43.0


From bdd941193afbc890e013822c6892a7d4909325c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 80/95] fix: log_exceptions lost what a generator returned

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 32b984f..b757ad1 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -106,7 +106,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except Exception as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From 25dd2a7527f1039293b6ef73a7f9478d589093ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 81/95] fix: measure lost what a generator returned

---
 satella/time/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 236e065..566d231 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -230,9 +230,9 @@ class measure:  # pylint: disable=invalid-name
                         if not s.create_stopped:
                             s.reset()
                             with s:
-                                yield from func(s, *args, **kwargs)
+                                return (yield from func(s, *args, **kwargs))
                         else:
-                            yield from func(s, *args, **kwargs)
+                            return (yield from func(s, *args, **kwargs))
 
                     return inner
                 else:
-- 
2.43.0


From 584a2e9501458c3b54ffb43d377a7c6e51f0bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 82/95] fix: the measure of a metric lost what a generator
 returned

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From 6231849ab3eb3b89bf1bc1a0827f31523c999cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 83/95] fix: Traceback failed if a value failed to pickle with
 an exception that cannot be shown

---
 satella/instrumentation/trace_back/classes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index c3fedf1..e48adc3 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -142,7 +142,10 @@ class StoredVariableValue(JSONAble):
             self.repr = repr(value)  # type: str
         except Exception as e:
             self.repr = '<repr unavailable due to %s>' % (type(e).__name__,)
-        self.type_ = repr(type(value))  # type: str
+        try:
+            self.type_ = repr(type(value))  # type: str
+        except Exception:   # the metaclass might be broken too
+            self.type_ = object.__repr__(type(value))
 
         policy = policy or GenerationPolicy()
 
@@ -157,7 +160,11 @@ class StoredVariableValue(JSONAble):
                 self.pickle_type = 'pickle'
             except BaseException as e:
                 # yes, they all can happen!
-                self.pickle = repr((e,) + e.args).encode('utf8')
+                try:
+                    reason = repr((e,) + e.args)
+                except Exception:
+                    reason = '<repr unavailable of %s>' % (type(e).__name__,)
+                self.pickle = reason.encode('utf8', 'backslashreplace')
                 self.pickle_type = "failed"
             else:
                 if policy.should_compress(self.pickle):
-- 
2.43.0


From 6b0942477f104c76870d5e2b24dd4c919a67bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 84/95] fix: load_value() of a stored variable raised more than
 just ValueError

---
 satella/instrumentation/trace_back/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index e48adc3..425219f 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -202,9 +202,9 @@ class StoredVariableValue(JSONAble):
 
         try:
             return pickle.loads(pickle_)
-        except pickle.UnpicklingError:
+        except Exception as e:     # unpickling may raise just about anything
             raise ValueError(
-                'object picklable, but cannot load in this environment')
+                'object picklable, but cannot load in this environment') from e
 
     def __eq__(self, other: 'StoredVariableValue') -> bool:
         return self.repr == other.repr and self.type_ == other.type_
-- 
2.43.0


From db5c2f3823eae28e45bf9a08707b1168d62bfbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 85/95] fix: DumpToFileHandler wrote no file for exceptions
 whose message cannot be encoded

---
 satella/exception_handling/dump_to_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 10daa46..a10d845 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -66,7 +66,8 @@ class AsStream:
         if self.mode == StreamType.MODE_FILE:
             try:
                 self.file = open(self.o, 'w' if self.human_readable else 'wb',
-                                 encoding='utf8' if self.human_readable else None)
+                                 encoding='utf8' if self.human_readable else None,
+                                 errors='backslashreplace' if self.human_readable else None)
             except BaseException:
                 self.lock.release()
                 raise
-- 
2.43.0


From ad98d05a38ece42820eb20577806277983f25bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 86/95] fix: dump_memory_on failed upon the first object with a
 failing repr

---
 satella/instrumentation/memory/dump_frames_on.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/dump_frames_on.py b/satella/instrumentation/memory/dump_frames_on.py
index 965f93e..8f9ee0e 100644
--- a/satella/instrumentation/memory/dump_frames_on.py
+++ b/satella/instrumentation/memory/dump_frames_on.py
@@ -31,7 +31,11 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         else:
             top_scores[typ] = size
             instances[typ] = 1
-        output.write('object %s type %s size %s bytes\n' % (repr(obj), typ, size))
+        try:
+            representation = repr(obj)
+        except Exception as e:      # other objects need to be printed still
+            representation = '<repr unavailable due to %s>' % (type(e).__name__,)
+        output.write('object %s type %s size %s bytes\n' % (representation, typ, size))
 
     output.write('----------------------------------\n')
     output.write('Memory usage scores: \n')
-- 
2.43.0


From adb2fc0335e484a41e5ad0937cb0dfda5f0e13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 87/95] fix: run_when_generator_completes missed or repeated
 the action

---
 satella/coding/generators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..a882c28 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,24 +31,32 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self._advance(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self._advance(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
+        return self._advance(self.generator.__next__)
+
+    def _advance(self, method: tp.Callable, *args):
         try:
-            return self.generator.__next__()
+            return method(*args)
         except StopIteration:
             if not self.closed:
+                self.closed = True      # it completes but once
                 self.action_to_run(*self.args, **self.kwargs)
             raise
+        except BaseException:
+            if getattr(self.generator, 'gi_frame', None) is None:
+                self.closed = True      # it failed, so it will not complete
+            raise
 
     @abstractmethod
     def action_to_run(self):
-- 
2.43.0


From 7143736b7c97591ac67e57f93ffc52a67f3344bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 88/95] fix: SelfClosingGenerator lost what was yielded in
 answer to send()

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..c8642f8 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -59,8 +59,8 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        return self.generator.send(obj)
 
     def __next__(self):
         try:
-- 
2.43.0


From 3320af1fa038179358ccdb922c8708b74c34de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 89/95] fix: hint_with_length with a length_factory failed for
 generator functions

---
 satella/coding/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index c8642f8..6a2c012 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -117,7 +117,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 3b565ae59f9ab3fb089e56c413f64eea29945549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 90/95] fix: ListDeleter gave the last element again past the
 first one

---
 satella/coding/deleters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..09970b5 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,11 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        return self._current_or_stop()
+
+    def _current_or_stop(self) -> T:
+        if self.current_index < 0:      # it would mean the last element
+            raise StopIteration('First element reached')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,10 +190,7 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
-        try:
-            return self.list_to_process[self.current_index]
-        except IndexError:
-            raise StopIteration()
+        return self._current_or_stop()
 
     def delete(self) -> None:
         self.indices_to_delete.add(self.current_index)
-- 
2.43.0


From b7a11e2cefd9cb1acbfd843500faafdd723dc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:15 +0000
Subject: [PATCH 91/95] fix: chain took a TypeError raised while iterating for
 an element not being iterable

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 6a2c012..14295a5 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From fc0bbfca0e79a9cdfed88c67f2b40950dd13ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 92/95] fix: tell concurrent.futures.wait what a Future really
 ended with

set_result and set_exception reported the outcome they were given, although
a pre-done callback might have turned it into the other kind, so that
wait(return_when=FIRST_EXCEPTION) missed a failure or returned on a success
---
 satella/coding/concurrent/futures/futures.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 6c98db7..aa64517 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,6 +125,14 @@ class Future(PythonFuture, tp.Generic[T]):
             except Exception:
                 LOGGER.exception('exception calling callback for %r', self)
 
+    def _notify_waiters(self):
+        # pre-done callbacks might have turned a result into an exception, or the other way round
+        for waiter in self._waiters:
+            if self._exception is not None:
+                waiter.add_exception(self)
+            else:
+                waiter.add_result(self)
+
     def result(self, timeout=None) -> T:
         if self._is_pre_finishing():
             return self.__get_result()
@@ -154,8 +162,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_result(self)
+                self._notify_waiters()
                 self._condition.notify_all()
             self._invoke_callbacks()
 
@@ -176,8 +183,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_exception(self)
+                self._notify_waiters()
                 self._condition.notify_all()
             self._invoke_callbacks()
 
-- 
2.43.0


From a584f904fed163fc308009cbbdf71ccd1aba220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 93/95] fix: None is an item of a time heap as any other

put(timestamp, None) took the timestamp for the item, so an
ExpiringEntryDict could neither be read at None nor get rid of it, and
raised KeyError when cleaned up
---
 satella/coding/structures/heaps/time.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index abf64ad..41fc61a 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -8,6 +8,9 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
+_NOTSET = object()     # None is as good an item as any other
+
+
 class _TimeEntry(tuple):
     """
     A (timestamp, item) tuple ordered solely by it's timestamp, so that items sharing a timestamp
@@ -105,13 +108,13 @@ class TimeBasedHeap(Heap):
         raise ValueError('Element not found!')
 
     def put(self, timestamp_or_value: tp.Union[T, Number],
-            value: tp.Optional[T] = None) -> None:
+            value: tp.Optional[T] = _NOTSET) -> None:
         """
         Put an item on heap.
 
         Pass timestamp, item or just an item for default time
         """
-        if value is None:
+        if value is _NOTSET:
             timestamp, item = self.default_clock_source(), timestamp_or_value
         else:
             timestamp, item = timestamp_or_value, value
@@ -271,13 +274,13 @@ class TimeBasedSetHeap(Heap):
         return item
 
     def put(self, timestamp_or_value: tp.Union[T, Number],
-            value: tp.Optional[T] = None) -> None:
+            value: tp.Optional[T] = _NOTSET) -> None:
         """
         Put an item on heap.
 
         Pass timestamp, item or just an item for default time
         """
-        if value is None:
+        if value is _NOTSET:
             timestamp, item = self.default_clock_source(), timestamp_or_value
         else:
             timestamp, item = timestamp_or_value, value
-- 
2.43.0


From 80a9503bc8647ffcab36972274b73028f81361a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 94/95] fix: time given to guests is not counted twice in the
 occupancy factor

---
 satella/instrumentation/cpu_time/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index be77abb..ba59623 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -203,7 +203,8 @@ def _calculate_occupancy_factor_locked() -> float:
     try:
         try:
             try:
-                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal + c.guest + c.guest_nice
+                # guest and guest_nice are already in user and nice
+                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal
             except AttributeError:
                 # Linux?
                 used = c.user + c.nice + c.system + c.irq + c.softirq
-- 
2.43.0


From 6e02787ecd1545a934b96fdde853d4579d3dcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:56 +0000
Subject: [PATCH 95/95] fix: log_exceptions takes None and any sequence for
 exc_types, as documented

---
 satella/coding/recast_exceptions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index b757ad1..1b69d9e 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -65,13 +65,17 @@ class log_exceptions:
                  format_string: str = '{e}',
                  locals_: tp.Optional[tp.Dict] = None,
                  exc_types: tp.Union[
-                     ExceptionClassType, tp.Sequence[ExceptionClassType]] = Exception,
+                     ExceptionClassType, tp.Sequence[ExceptionClassType], None] = Exception,
                  swallow_exception: bool = False):
         self.logger = logger
         self.swallow_exception = swallow_exception
         self.severity = severity
         self.format_string = format_string
         self.locals = locals_
+        if exc_types is None:
+            exc_types = Exception
+        elif not isinstance(exc_types, type):
+            exc_types = tuple(exc_types)
         self.exc_types = exc_types
 
     def __enter__(self):
-- 
2.43.0

