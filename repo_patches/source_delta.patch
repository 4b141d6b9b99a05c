From e93a954b21b73f34927a5f21329a746d7df549fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 001/264] fix: SetHeap constructed from an iterable with
 duplicates kept the duplicates

---
 satella/coding/structures/heaps/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..b978278 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,8 +153,8 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
-        self.set = set(self.data)
+        self.set = set(from_list) if from_list is not None else set()
+        super().__init__(from_list=self.set)
 
     def push(self, item: T):
         if item not in self.set:
-- 
2.43.0


From a817418dc6766ac0be42ed5fb0de251a83dfe8fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 002/264] fix: SetHeap.pop_item left the popped item in the
 membership set

---
 satella/coding/structures/heaps/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index b978278..6de94fc 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -166,6 +166,11 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def pop_item(self, item: T) -> T:
+        item = super().pop_item(item)
+        self.set.remove(item)
+        return item
+
     def __contains__(self, item: T) -> bool:
         return item in self.set
 
-- 
2.43.0


From d03dd0154973e459c17a2a12daa4084ead229e63 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 003/264] fix: TimeBasedHeap.get_timestamp subscripted the
 stored item instead of comparing it

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 14b6587aaad93c3eed1d18d32a0f09ddfeb8f605 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 004/264] fix: TimeBasedSetHeap.remove kept a stale timestamp
 of the removed item

---
 satella/coding/structures/heaps/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..a7baa9d 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -269,3 +269,4 @@ class TimeBasedSetHeap(Heap):
         Remove all things equal to item
         """
         self.filter_map(filter_fun=lambda i: i[1] != item)
+        self.item_to_timestamp.pop(item, None)
-- 
2.43.0


From 247a9b0fbdbbcd1fb165e48669fe1d33a2430b68 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 005/264] fix: PeekableQueue.get/peek could miss a put and
 block or time out with an item in the queue

---
 satella/coding/concurrent/queue.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..0945db0 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -2,10 +2,8 @@ import collections
 import threading
 import typing as tp
 
-from satella.coding.concurrent.thread import Condition
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.typing import T
-from satella.exceptions import WouldWaitMore, Empty
+from satella.exceptions import Empty
 from satella.time.measure import measure
 
 
@@ -19,7 +17,7 @@ class PeekableQueue(tp.Generic[T]):
         super().__init__()
         self.queue = collections.deque()
         self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        self.inserted_condition = threading.Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -29,7 +27,8 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+            # everyone: a notified peek() leaves the item for the others
+            self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,17 +37,13 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+            self.inserted_condition.notify_all()
 
     def __get_timeout_none(self, item_getter):
         while True:
-            self.lock.release()
             self.inserted_condition.wait()
-            self.lock.acquire()
             if len(self.queue):
                 try:
                     return item_getter(self.queue)
@@ -58,10 +53,7 @@ class PeekableQueue(tp.Generic[T]):
     def __get_timeout(self, item_getter, timeout):
         with measure(timeout=timeout) as measurement:
             while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
                 self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
                 if len(self.queue):
                     try:
                         return item_getter(self.queue)
@@ -71,7 +63,6 @@ class PeekableQueue(tp.Generic[T]):
                 self.lock.release()
                 raise Empty('queue is empty')
 
-    @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
         self.lock.acquire()
         if len(self.queue):
-- 
2.43.0


From a78eec9c9bdc51f90c6e84e751dc7d33bf2a1c1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 006/264] fix: AtomicNumber's &= |= ^= <<= >>= **= did not wake
 up the waiters

---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d887282 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From 40fa97c919dc16bd7127aeba25f7e6316cd7be15 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 007/264] fix: AtomicNumber.wait_until_equal could miss a
 change made between its check and its wait

---
 satella/coding/concurrent/atomic.py | 31 ++++++++---------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d887282..f94ba9a 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -1,9 +1,8 @@
+import threading
 import typing as tp
 
 from satella.coding.concurrent.monitor import Monitor
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
-from satella.time.measure import measure
 
 Number = tp.Union[int, float]
 
@@ -33,7 +32,7 @@ class AtomicNumber(Monitor):
     def __init__(self, v: Number = 0):
         super().__init__()
         self.value = v
-        self.condition = Condition()
+        self.condition = threading.Condition(self._monitor_lock)
 
     def wait(self, timeout: tp.Optional[float] = None, throw_exception: bool = True):
         """
@@ -43,11 +42,9 @@ class AtomicNumber(Monitor):
         :param throw_exception: whether to throw WouldWaitMore on timeout
         :raises WouldWaitMore: the value hasn't changed within the timeout
         """
-        try:
-            self.condition.wait(timeout)
-        except WouldWaitMore:
-            if throw_exception:
-                raise
+        with Monitor.acquire(self):
+            if not self.condition.wait(timeout) and throw_exception:
+                raise WouldWaitMore('wait was not notified')
 
     @Monitor.synchronized
     def __repr__(self) -> str:
@@ -271,18 +268,6 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
-                with Monitor.acquire(self):
-                    if self.value != v:
-                        raise WouldWaitMore()
+        with Monitor.acquire(self):
+            if not self.condition.wait_for(lambda: self.value == v, timeout):
+                raise WouldWaitMore()
-- 
2.43.0


From ff85ca5ddcbac9e2bccfa0d97732193e28aae983 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:45:17 +0000
Subject: [PATCH 008/264] fix: comparing an AtomicNumber to itself, or two of
 them both ways at once, deadlocked

---
 satella/coding/concurrent/atomic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index f94ba9a..543cb3e 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -228,13 +228,13 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
-        if isinstance(other, AtomicNumber):
-            with Monitor.acquire(other):
+        if isinstance(other, AtomicNumber) and other is not self:
+            first, second = sorted((self, other), key=id)
+            with Monitor.acquire(first), Monitor.acquire(second):
                 return self.value == other.value
-        else:
-            return self.value == other
+        with Monitor.acquire(self):
+            return self.value == (self.value if other is self else other)
 
     @Monitor.synchronized
     def __int__(self) -> int:
-- 
2.43.0


From 00520e4d35f9d24075bd8f5a0a15cbd8dad008de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 009/264] fix: LockedDataset.__exit__ cleared the locked flag
 of whoever locked the dataset next

---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From 696e10ebc11de4bddd27243793e6a1426995522b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 010/264] fix: arguments given to LockedDataset's call affected
 every later locking of it

---
 satella/coding/concurrent/locked_dataset.py | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c92be..25cf93a 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,11 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,12 +80,9 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
-
-    def __enter__(self):
-        args = _get_internal(self).args
+        return _LockWithArgs(self, blocking, timeout)
 
+    def __enter__(self, *args):
         if not _get_internal(self).lock.acquire(*args):
             raise WouldWaitMore('Resource is still locked')
         _get_internal(self).locked = True
@@ -98,5 +94,20 @@ class LockedDataset:
         return False
 
 
+class _LockWithArgs:
+    """A context manager to lock given dataset using given arguments for the lock"""
+    __slots__ = ('dataset', 'args')
+
+    def __init__(self, dataset: LockedDataset, *args):
+        self.dataset = dataset
+        self.args = args
+
+    def __enter__(self):
+        return self.dataset.__enter__(*self.args)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        return self.dataset.__exit__(exc_type, exc_val, exc_tb)
+
+
 def _get_internal(self):
     return super(LockedDataset, self).__getattribute__('_LockedDataset__internal')
-- 
2.43.0


From 2e6c91bae9e8c8143f9702cb4577b182e4c2fbf0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 011/264] fix: two threads could both succeed in setting a
 DeferredValue

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From 21a9332b317ea3de028931804b2b18649b6a6fee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 012/264] fix: Future.exception required a timeout

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..9b27d38 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout=None) -> tp.Type[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From 50821bd7d28c663317a3c74df289a5a2ef6bf469 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 013/264] fix: Future.on_success called its function for a
 cancelled future

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 9b27d38..203b441 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
-- 
2.43.0


From f5c382c9a8686400833ecc40f35eecd37713f206 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 014/264] fix: a pre-done callback could not replace an
 exception by a result

---
 satella/coding/concurrent/futures/futures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 203b441..60c268b 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -138,6 +138,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
         if self._state == PRE_FINISHED:
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-- 
2.43.0


From cefd6c74f2e9ecd27b6eda5f8d42122c3a8e9812 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 015/264] fix: other threads could see or overwrite a Future's
 result while its pre-done callbacks were running

---
 satella/coding/concurrent/futures/futures.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 60c268b..80fdded 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -1,5 +1,6 @@
 import concurrent.futures._base
 import logging
+import threading
 import typing as tp
 from concurrent.futures import Future as PythonFuture
 from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED
@@ -39,6 +40,13 @@ class Future(PythonFuture, tp.Generic[T]):
         super().__init__()
         self._pre_done_callbacks = []
         self._done_callbacks = []
+        self._pre_finishing_thread = None
+
+    @property
+    def _in_pre_done_callback(self) -> bool:
+        """Is this called by a pre-done callback, as opposed to some other thread?"""
+        return self._state == PRE_FINISHED and \
+            self._pre_finishing_thread == threading.get_ident()
 
     def on_success(self, fun) -> 'Future':
         """
@@ -120,13 +128,13 @@ class Future(PythonFuture, tp.Generic[T]):
                 LOGGER.exception('exception calling callback for %r', self)
 
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback:
             return self.__get_result()
         else:
             return super().result(timeout)
 
     def exception(self, timeout=None) -> tp.Type[Exception]:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback:
             return self._exception
         else:
             return super().exception(timeout)
@@ -136,7 +144,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback:
             self._result = result
             self._exception = None
         else:
@@ -144,6 +152,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                     raise InvalidStateError('{}: {!r}'.format(self._state, self))
                 self._result = result
+                self._pre_finishing_thread = threading.get_ident()
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
@@ -157,7 +166,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_done_callback:
             self._exception = exception
             self._result = None
         else:
@@ -165,6 +174,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                     raise InvalidStateError('{}: {!r}'.format(self._state, self))
                 self._exception = exception
+                self._pre_finishing_thread = threading.get_ident()
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
-- 
2.43.0


From a8b13f90fdbe4d9036f54f2a6e6695ba3bb64482 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 016/264] fix: WrappingFuture around a future just finishing
 lost its result

---
 satella/coding/concurrent/futures/futures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 80fdded..db19481 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -197,7 +197,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-- 
2.43.0


From 0b87427615ca0d0b8100912837299653e6a1fea1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 017/264] fix: WrappingFuture did not wake up its waiters nor
 call its callbacks when the source got cancelled

---
 satella/coding/concurrent/futures/futures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index db19481..cd48537 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -213,13 +213,17 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._state = CANCELLED
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 0976c636742ff3edeaeaa948af7da6f002bf1103 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 018/264] fix: FutureCollection.set_running_or_notify_cancel
 stopped at the first running future

---
 satella/coding/concurrent/futures/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..91a691f 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
-- 
2.43.0


From aadce8dac86ca2aa272c6c4ec211b8e7568995b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 019/264] fix: FutureCollection.cancel stopped at the first
 future that could not be cancelled

---
 satella/coding/concurrent/futures/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index 91a691f..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 04c7bb13c40863a8c8175720a46e3d7a40a2e3c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:59:38 +0000
Subject: [PATCH 020/264] fix: WrappingFuture reported its source's completion
 before having its result, if it came between two reads

---
 satella/coding/concurrent/futures/futures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index cd48537..feceb4a 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -200,10 +200,11 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        source_state = self.source_future._state
+        if source_state == FINISHED:
             return self._old_state
         else:
-            return self.source_future._state
+            return source_state
 
     @_state.setter
     def _state(self, v: str):
-- 
2.43.0


From 8daaca10ce713c9ba630d656eeb564913297ba32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 021/264] fix: IDAllocator with both start_at and top_limit
 allocated values past the top limit

---
 satella/coding/concurrent/id_allocator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..7ba8757 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -76,8 +76,8 @@ class IDAllocator(Monitor):
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        if x > self.top_limit - self.start_at:
+            x = self.top_limit - self.start_at
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From 81fcfe2a1a8fea161e9a8452ec00ead89b46cc16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 022/264] fix: IDAllocator ignored a top limit of zero

---
 satella/coding/concurrent/id_allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index 7ba8757..981efaf 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,7 +71,7 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
-- 
2.43.0


From dd86bda1ed6374c052712a9a62e6acb354f95fa4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 023/264] fix: CallableGroup.has_cancelled_callbacks told
 whether there are any callbacks that were NOT cancelled

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..a480e4d 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -113,7 +113,7 @@ class CallableGroup(tp.Generic[T]):
         of them was cancelled
         """
         for clb in self.callables:
-             if clb:
+            if not clb:
                 return True
         return False
 
-- 
2.43.0


From 51ece84ac7a63838c8d8a792877cbbea9d22f748 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 024/264] fix: CallableGroup forgot its remaining callables
 when one of them raised

---
 satella/coding/concurrent/callablegroup.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index a480e4d..c258271 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -169,11 +169,12 @@ class CallableGroup(tp.Generic[T]):
             self.remove_cancelled()
 
         callables = copy.copy(self.callables)
-        self.callables.clear()
 
         results = []
 
         for call, one_shot in callables.items():
+            if one_shot:
+                self.callables.pop(call, None)
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -184,9 +185,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
-- 
2.43.0


From a842b2e96fcdf7073f401f21301b37e1c7df2fec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 025/264] fix: CallNoOftenThan dropped the result of its
 callable

---
 satella/coding/concurrent/callablegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index c258271..8a9320d 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -209,5 +209,6 @@ class CallNoOftenThan:
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
+            result = self.callable(*args, **kwargs)
             self.last_called = time.monotonic()
+            return result
-- 
2.43.0


From 00d58fc06ece60191a76a6f0e25fd2b3e97850e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:35:42 +0000
Subject: [PATCH 026/264] fix: time based heaps compared the items having the
 same timestamp, raising TypeError if they could not be

---
 satella/coding/structures/heaps/time.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index a7baa9d..b4591fe 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -7,6 +7,14 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable
 
 
+class _Entry(tuple):
+    """A (timestamp, item) tuple that is ordered by the timestamp alone, items need not be comparable"""
+    __slots__ = ()
+
+    def __lt__(self, other) -> bool:
+        return self[0] < other[0]
+
+
 class TimeBasedHeap(Heap):
     """
     A heap of items sorted by timestamps.
@@ -95,7 +103,7 @@ class TimeBasedHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def peek_closest(self) -> tp.Tuple[Number, T]:
         """
@@ -242,7 +250,7 @@ class TimeBasedSetHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def pop_less_than(self, less: tp.Optional[Number] = None) -> tp.Iterator[tp.Tuple[Number, T]]:
         """
-- 
2.43.0


From a198c551991b79f680fe107bf67cb9dfbefc0695 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 027/264] fix: SingleStartThread started from two threads at
 once could raise, and start() gave None the second time

---
 satella/coding/concurrent/thread.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..a35ce1f 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -151,6 +151,7 @@ class SingleStartThread(threading.Thread):
 
     def __init__(self, *args, **kwargs):
         self.__started = False
+        self.__start_lock = threading.Lock()
         super().__init__(*args, **kwargs)
 
     def start(self) -> 'SingleStartThread':
@@ -159,9 +160,10 @@ class SingleStartThread(threading.Thread):
 
         :return: self
         """
-        if self.__started:
-            return
-        self.__started = True
+        with self.__start_lock:
+            if self.__started:
+                return self
+            self.__started = True
         super().start()
         return self
 
-- 
2.43.0


From bb9fec30969a9842bf4e0d50104edd4a5dfcf5be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 028/264] fix: BogusTerminableThread.join without a timeout
 raised TypeError

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index a35ce1f..e31944c 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -222,7 +222,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while not self.terminated and (timeout is None or
+                                           time.monotonic() - started_elapsing < timeout):
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From b218963324414e08a0ab8cad6d436c18272009ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 029/264] fix: a Singleton being constructed was given out to
 other threads, and stayed if its constructor raised

---
 satella/coding/structures/singleton.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..95156cd 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -1,3 +1,4 @@
+import threading
 import typing as tp
 import weakref
 
@@ -17,17 +18,23 @@ def Singleton(cls):
     """
 
     cls.__new_old__ = cls.__new__
+    lock = threading.RLock()
 
     @wraps(cls.__new__)
     def singleton_new(cls, *args, **kw):
-        it = cls.__dict__.get('__it__')
-        if it is not None:
+        with lock:
+            it = cls.__dict__.get('__it__')
+            if it is not None:
+                return it
+
+            cls.__it__ = it = cls.__new_old__(cls)
+            try:
+                it.__init_old__(*args, **kw)
+            except BaseException:
+                del cls.__it__
+                raise
             return it
 
-        cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
-        return it
-
     cls.__new__ = singleton_new
     cls.__init_old__ = cls.__init__
     cls.__init__ = wraps(cls.__init__)(
-- 
2.43.0


From 0f9c5833a92e097f6f90d1f6afe4a95a5ee4e276 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:46:43 +0000
Subject: [PATCH 030/264] fix: the timer thread took timers off its heap
 without holding its monitor

---
 satella/coding/concurrent/timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..69b324d 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,8 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                # pop_less_than is lazy, and the heap may be touched only with the monitor held
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From ae5c4b0bcd6054244af309cc8b46cb4f431e011e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 031/264] fix: sync_threadpool hung, with the whole pool, if a
 worker was notified before it began to wait

---
 satella/coding/concurrent/sync.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..ee3d8e5 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
+from threading import Event
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,12 +49,12 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        released = Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            released.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
@@ -65,5 +65,5 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
             atm_n.wait_until_equal(0)
         else:
             _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+        released.set()
         wait(futures)
-- 
2.43.0


From 78c191e476340d14b80b8c0d61d04e89e148e140 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:52:00 +0000
Subject: [PATCH 032/264] fix: sync_threadpool that timed out left the workers
 of the pool blocked forever

---
 satella/coding/concurrent/sync.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index ee3d8e5..3950def 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -58,12 +58,14 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        released.set()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            released.set()
         wait(futures)
-- 
2.43.0


From e47358d4bd2094b326bdbf3b4748eb8a539be4c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 033/264] fix: CacheDict measured the age of its entries with
 time.monotonic instead of the given time_getter

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From a37208a8f2daa470341d4fa65516865c90eb3136 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 034/264] fix: CacheDict.feed ignored a timestamp of 0, and a
 failure cached for the key hid the value

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..e1a94c4 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From ca4212df130c5f9c295762fc50e2a3507d5db5b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 035/264] fix: CacheDict.has_info_about judged a cached failure
 by the expiration interval of values

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index e1a94c4..13c70fa 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -111,7 +111,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
-- 
2.43.0


From b1618be28c0ac230d7f550c68bfbd1d0c280fd93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 036/264] fix: CacheDict.invalidate did not forget a cached
 failure

---
 satella/coding/structures/dictionaries/cache_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 13c70fa..50ddc46 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -201,7 +201,9 @@ class CacheDict(tp.Mapping[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        del self[key]
+        self.data.pop(key, None)
+        self.timestamp_data.pop(key, None)
+        self.cache_missed.discard(key)
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
         if key in self.cache_missed:
-- 
2.43.0


From c73b3bce6101e02a4a5a240f0c4cddee4ff425de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 037/264] fix: LRUCacheDict evicted an entry when replacing the
 value of one it already had

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 50ddc46..7773f6b 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -318,6 +318,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From c297f66c9087ecff3e22e4f8cd41ce7595250d4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 038/264] fix: LRUCacheDict.feed of a known key did not make it
 recently used

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 7773f6b..9bfd0b2 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -312,7 +312,7 @@ class LRUCacheDict(CacheDict[K, V]):
         if key not in self.data:
             self.make_room()
         super().feed(key, value, timestamp)
-        self.lru.add(key)
+        self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From 6f0f82efcff6fd0fe78eeca0ea6d9d10740dfd9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:58:44 +0000
Subject: [PATCH 039/264] fix: LRUCacheDict kept in its LRU the keys that were
 not found, and evicted those instead of entries

---
 satella/coding/structures/dictionaries/cache_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 9bfd0b2..4159685 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -293,12 +293,14 @@ class LRUCacheDict(CacheDict[K, V]):
         self.lru.remove(key)
 
     def __getitem__(self, key: K) -> V:
-        self.lru.mark_as_used(key)
+        if key in self.data:
+            self.lru.mark_as_used(key)
         return super().__getitem__(key)
 
     def get_value_block(self, key: K) -> V:
         v = super().get_value_block(key)
-        self.lru.add(key)
+        if key in self.data:
+            self.lru.add(key)
         return v
 
     def __delitem__(self, key: K) -> None:
-- 
2.43.0


From 5ebb296c4a79507467a92da1091a0f3eb09bb92f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 040/264] fix: reading a CacheDict raised KeyError, or gave
 None, while another thread was changing the same key

---
 .../structures/dictionaries/cache_dict.py     | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 4159685..3d39868 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -206,35 +206,34 @@ class CacheDict(tp.Mapping[K, V]):
         self.cache_missed.discard(key)
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-        if key in self.cache_missed:
-            if now - timestamp > self.cache_failures_interval:
-                return self.get_value_block(key)
+        if now - timestamp > self.cache_failures_interval:
+            return self.get_value_block(key)
+        else:
+            if self.default_value_factory:
+                return self.default_value_factory()
             else:
-                if self.default_value_factory:
-                    return self.default_value_factory()
-                else:
-                    raise KeyError('Cached a miss')
+                raise KeyError('Cached a miss')
 
     def __getitem__(self, key: K) -> V:
-        if key not in self.data and key not in self.cache_missed:
+        missed = key in self.cache_missed
+        try:
+            timestamp = self.timestamp_data[key]
+            value = None if missed else self.data[key]
+        except KeyError:    # not known, or another thread is changing it right now
             return self.get_value_block(key)
-
-        timestamp = self.timestamp_data[key]
         now = self.time_getter()
 
-        if key in self.cache_missed:
+        if missed:
             return self._on_cache_hit_empty(key, timestamp, now)
         else:
-            return self._on_cache_hit(key, timestamp, now)
+            return self._on_cache_hit(key, value, timestamp, now)
 
-    def _on_cache_hit(self, key: K, timestamp: float, now: float) -> V:
+    def _on_cache_hit(self, key: K, value: V, timestamp: float, now: float) -> V:
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
-        elif now - timestamp > self.stale_interval:
+        if now - timestamp > self.stale_interval:
             self.schedule_a_fetch(key)
-            return self.data[key]
-        else:
-            return self.data[key]
+        return value
 
     def __delitem__(self, key: K) -> None:
         del self.data[key]
-- 
2.43.0


From 75f14e78e3ae3b913c1605c9ba5cd5dffd54f927 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 041/264] fix: LRUCacheDict used by many threads could lose
 track of its entries and then loop forever making room

---
 .../structures/dictionaries/cache_dict.py     | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 3d39868..2def751 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 import time
 import typing as tp
 from concurrent.futures import ThreadPoolExecutor, Executor, Future
@@ -263,6 +264,7 @@ class LRUCacheDict(CacheDict[K, V]):
         assert max_size > 0, 'Too small max_size!'
         self.max_size = max_size
         self.lru = LRU()
+        self.lru_lock = threading.RLock()   # data and lru have to change together
 
     def make_room(self) -> None:
         """
@@ -288,38 +290,44 @@ class LRUCacheDict(CacheDict[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        super().invalidate(key)
-        self.lru.remove(key)
+        with self.lru_lock:
+            super().invalidate(key)
+            self.lru.remove(key)
 
     def __getitem__(self, key: K) -> V:
-        if key in self.data:
-            self.lru.mark_as_used(key)
+        with self.lru_lock:
+            if key in self.data:
+                self.lru.mark_as_used(key)
         return super().__getitem__(key)
 
     def get_value_block(self, key: K) -> V:
         v = super().get_value_block(key)
-        if key in self.data:
-            self.lru.add(key)
+        with self.lru_lock:
+            if key in self.data:
+                self.lru.add(key)
         return v
 
     def __delitem__(self, key: K) -> None:
-        super().__delitem__(key)
-        self.lru.remove(key)
+        with self.lru_lock:
+            super().__delitem__(key)
+            self.lru.remove(key)
 
     def feed(self, key: K, value: V, timestamp: tp.Optional[float] = None):
         """
         Feed this data into the cache
         """
-        if key not in self.data:
-            self.make_room()
-        super().feed(key, value, timestamp)
-        self.lru.mark_as_used(key)
+        with self.lru_lock:
+            if key not in self.data:
+                self.make_room()
+            super().feed(key, value, timestamp)
+            self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        if key not in self.data:
-            self.make_room()
-        self.lru.mark_as_used(key)
-        super().__setitem__(key, value)
+        with self.lru_lock:
+            if key not in self.data:
+                self.make_room()
+            self.lru.mark_as_used(key)
+            super().__setitem__(key, value)
-- 
2.43.0


From b09949ed13abd76f40a02122bb22932aae8d82cf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 042/264] fix: acquiring an ExpiringEntryDict or a
 SelfCleaningDefaultDict before iterating, as documented, deadlocked

---
 satella/coding/structures/dictionaries/expiring.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..fdafc4d 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -58,7 +58,7 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -136,7 +136,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
-- 
2.43.0


From 14fd259acfe84faa63e966ad2dc55cb6dca16718 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 043/264] fix: iterating over a SelfCleaningDefaultDict gave
 nothing

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index fdafc4d..1995469 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -99,7 +99,7 @@ class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
 
     def __delitem__(self, key: K) -> None:
         if key in self.data:
-- 
2.43.0


From bc051edea27f0da7a4ef6995d3a63dab53e47a72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 044/264] fix: every key seemed to be in a
 SelfCleaningDefaultDict, and asking about one inserted it

---
 satella/coding/structures/dictionaries/expiring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 1995469..99741bf 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -101,6 +101,12 @@ class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         self.cleanup()
         return iter(self.data)
 
+    def __contains__(self, item) -> bool:
+        try:
+            return self.data[item] != self.default_value
+        except KeyError:
+            return False
+
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
-- 
2.43.0


From 49a94912c240e852dc079bc22e53e598161840db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 045/264] fix: reading an expired entry of an ExpiringEntryDict
 broke it, its next len() or iteration raised KeyError

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 99741bf..ef2c4c0 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -221,7 +221,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
-- 
2.43.0


From 1ee21b0efe7bde95fe24042212ffc4cb631d6896 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 046/264] fix: deleting a key not in an ExpiringEntryDict
 raised ValueError instead of KeyError

---
 satella/coding/structures/dictionaries/expiring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index ef2c4c0..ccef6d5 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -227,6 +227,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         return self.data[item]
 
     @Monitor.synchronized
+    @rethrow_as(ValueError, KeyError)
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From d961dae57258044398f16a9d1c3aa5ba5898d350 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 047/264] fix: ExpiringEntryDict.get_timestamp gave the time of
 expiration, not of insertion as documented

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index ccef6d5..f2407e5 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -200,7 +200,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
         :raises KeyError: key not found in the dictionary
         """
-        return self.key_to_expiration_time.item_to_timestamp[key]
+        return self.key_to_expiration_time.item_to_timestamp[key] - self.expiration_timeout
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-- 
2.43.0


From 7502343d25cc4e92cae64f4ea7bbd551e8727215 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:14:17 +0000
Subject: [PATCH 048/264] fix: looking up an expired entry of an
 ExpiringEntryDict raced with other threads, raising KeyError from in or
 removing a value just set

---
 satella/coding/structures/dictionaries/expiring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index f2407e5..e42871d 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -182,6 +182,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @Monitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -217,6 +218,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
         self.data[key] = value
 
+    @Monitor.synchronized
     @rethrow_as(ValueError, KeyError)
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
-- 
2.43.0


From 227f27ca11b41d8bd40e12fbd80704a00486ad23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 049/264] fix: ExclusiveWritebackCache.sync ignored its timeout
 while operations were queued

---
 satella/coding/structures/dictionaries/writeback_cache.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..ac68e9d 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -1,4 +1,3 @@
-import time
 import typing as tp
 from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
 
@@ -69,12 +68,6 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
-
-        def fix():
-            return
-
         sync_threadpool(self.executor, max_wait=timeout)
 
     def _operate(self):
-- 
2.43.0


From f205321c5860b834a5a42030d9f5f94b8eefa28b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 050/264] fix: ExclusiveWritebackCache applied operations on a
 key out of order, and a read raced with writes, so that old values won

---
 .../dictionaries/writeback_cache.py           | 59 ++++++++++++++++---
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index ac68e9d..351eceb 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -1,3 +1,4 @@
+import collections
 import typing as tp
 from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
 
@@ -26,7 +27,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'pending')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -48,6 +49,49 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        # key => (lock held while working on the key, operations on it yet to be done)
+        self.pending = collections.defaultdict(lambda: (Monitor(), collections.deque()))
+
+    def _enqueue(self, key: K, method: tp.Callable, *args) -> None:
+        """Have the executor do this after the previous operations on the key. Call with cache_lock."""
+        if isinstance(self.executor, ThreadPoolExecutor):
+            self.pending[key][1].append((method, args))
+            self.executor.submit(self._process, key)
+        else:
+            self.executor.submit(method, *args)
+
+    def _process(self, key: K) -> None:
+        with self.cache_lock:
+            lock, operations = self.pending[key]
+        with lock:
+            if operations:      # a reader might have done this already
+                method, args = operations.popleft()
+                method(*args)
+
+    def _read(self, key: K) -> V:
+        with self.cache_lock:
+            lock, operations = self.pending[key]
+        with lock:
+            while True:
+                while operations:
+                    method, args = operations.popleft()
+                    with silence_excs(Exception):
+                        method(*args)
+                try:
+                    value = self.read_method(key)
+                except KeyError:
+                    with self.cache_lock:
+                        if operations:      # changed in the meantime
+                            continue
+                        if self.store_key_errors:
+                            self.in_cache.add(key)
+                    raise
+                with self.cache_lock:
+                    if operations:
+                        continue
+                    self.in_cache.add(key)
+                    self.cache[key] = value
+                return value
 
     def get_queue_length(self) -> int:
         """
@@ -80,6 +124,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __getitem__(self, item: K) -> V:
         self._operate()
         if item not in self.in_cache:
+            if isinstance(self.executor, ThreadPoolExecutor):
+                return self.executor.submit(self._read, item).result()
             try:
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
@@ -100,17 +146,16 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            self.cache.pop(key, None)
+            self._enqueue(key, self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self._enqueue(key, self.write_method, key, value)
         self._operate()
-- 
2.43.0


From 004b9a1b34dab97c440b9e5585bce2f01fe4dfad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 051/264] fix: MetrifiedExclusiveWritebackCache broke the
 entries_waiting metric it was given

---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From 0df8f89843ce585408211f6a1ec23110c180e6a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:37:56 +0000
Subject: [PATCH 052/264] fix: sync_threadpool hung if the executor had not
 started all of its threads

---
 satella/coding/concurrent/sync.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 3950def..de26e3c 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -9,8 +9,8 @@ from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
 
-def _while_sync_threadpool(tpe, max_wait, measurement, futures):
-    while tpe._work_queue.qsize() > 0:      # pylint: disable=protected-access
+def _while_sync_threadpool(tpe, max_wait, measurement, futures, idle):
+    while tpe._work_queue.qsize() > idle:      # pylint: disable=protected-access
         if max_wait is not None:
             if measurement() > max_wait:
                 for future in futures:
@@ -19,10 +19,10 @@ def _while_sync_threadpool(tpe, max_wait, measurement, futures):
         time.sleep(0.5)
 
 
-def _max_wait_atm_n(measurement, max_wait, atm_n):
+def _max_wait_atm_n(measurement, max_wait, atm_n, idle):
     while measurement() < max_wait:
         try:
-            atm_n.wait_until_equal(0, 1)
+            atm_n.wait_until_equal(idle, 1)
             return
         except WouldWaitMore:
             continue
@@ -57,15 +57,18 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
             released.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
+        # the executor may overestimate how many of its threads are idle, and start less than
+        # workers threads. This many of our jobs will then be left in the queue.
+        idle = workers - len(tpe._threads)      # pylint: disable=protected-access
 
         try:
             # wait for all currently scheduled jobs to be picked up
-            _while_sync_threadpool(tpe, max_wait, measurement, futures)
+            _while_sync_threadpool(tpe, max_wait, measurement, futures, idle)
 
             if max_wait is None:
-                atm_n.wait_until_equal(0)
+                atm_n.wait_until_equal(idle)
             else:
-                _max_wait_atm_n(measurement, max_wait, atm_n)
+                _max_wait_atm_n(measurement, max_wait, atm_n, idle)
         finally:
             released.set()
         wait(futures)
-- 
2.43.0


From 66e57ffb4172c16fc0df2d169b7df095617e9be1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 053/264] fix: TwoWayDictionary.done(), and using it as a
 context manager, raised AttributeError

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From ae47ace54299b8e9d30379b26a1a49481346088b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 054/264] fix: TwoWayDictionary raised ValueError on assigning
 to a key the value that it already has

---
 satella/coding/structures/dictionaries/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..c773ab1 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -175,6 +175,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
     def __setitem__(self, key: K, value: V) -> None:
         if value in self.reverse_data:
+            if key in self.data and self.data[key] == value:
+                return
             raise ValueError('This value is already mapped to something!')
 
         try:
-- 
2.43.0


From 2ff7b459716f21bbfc58c5c74dcefd2ddd2c0372 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 055/264] fix: KeyAwareDefaultDict had every key, as checking
 for a key created it

---
 satella/coding/structures/dictionaries/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index c773ab1..c73e837 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -104,6 +104,9 @@ class KeyAwareDefaultDict(tp.MutableMapping[K, V]):
         self.dict[item] = self.factory_function(item)
         return self.dict[item]
 
+    def __contains__(self, item: K) -> bool:
+        return item in self.dict
+
     def __setitem__(self, key: K, value: V) -> None:
         self.dict[key] = value
 
-- 
2.43.0


From 6bc51adb87b57f20a74dae6746646fd3e156aa9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 056/264] fix: copies of a DictionaryView lost
 propagate_deletes and assign_to_same_dict

---
 satella/coding/structures/dictionaries/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index c73e837..4b71dab 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -234,10 +234,13 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*self.dictionaries, propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From 1ecdc235c12993883689880b576dd9b5667272f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 057/264] fix: SortedList and Ranking required items with equal
 keys to be comparable themselves

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..ed5e151 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From f82cf8e0490f0519b4a382ecef8bc5730352cc14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 058/264] fix: copying a SliceableDeque, and so a SortedList,
 ended up in an infinite recursion

---
 satella/coding/structures/sorted_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index ed5e151..54b6e9a 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -127,6 +127,8 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
         return item in self.deque
 
     def __getattr__(self, item: str):
+        if item == 'deque':     # not initialized yet, eg. being copied
+            raise AttributeError(item)
         return getattr(self.deque, item)
 
     def __getitem__(self, item) -> tp.Union[tp.Iterator[T], T]:
-- 
2.43.0


From 4b9f427f9b98e2e8bfe5f758eac4c74a440b2efd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 059/264] fix: appending to a full SliceableDeque that has a
 maxlen raised IndexError

---
 satella/coding/structures/sorted_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index 54b6e9a..075ec16 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -105,6 +105,9 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
     def insert(self, i: int, item: T):
         self.deque.insert(i, item)
 
+    def append(self, item: T) -> None:
+        self.deque.append(item)
+
     def __init__(self, *args, **kwargs):
         self.deque = collections.deque(*args, **kwargs)
 
-- 
2.43.0


From a3ef04ee489f7b4590459569547878c9d9023028 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 060/264] fix: Ranking kept positions of elements that were
 removed

---
 satella/coding/structures/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..f63c816 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,6 +52,7 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        del self.element_to_position[id(self.ranking[index])]
         self.ranking.remove(item)
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
-- 
2.43.0


From 3d74a483df01062ada743b4d4e2d22cc6759ae89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:49:24 +0000
Subject: [PATCH 061/264] fix: Subqueue.get_any() and qsize() failed if another
 thread was adding a queue

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From 0f6e4a7598760300893a3c38a7cea7f7374ab3ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 062/264] fix: SparseMatrix was falsy if it had elements, and
 truthy if it had none

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..cce48f2 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows > 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From 56593775158bde12d87ef50a802b9c5785cfb78b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 063/264] fix: SparseMatrix stored elements at negative
 positions, if a negative index was out of range

---
 satella/coding/structures/sparse_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index cce48f2..0c060b4 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -13,9 +13,10 @@ def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
             raise IndexError('Custom slicing is not supported!')
         return Ellipsis
     elif isinstance(inst, int):
-        if isinstance(inst, int):
+        if inst < 0:
+            inst += max_count
             if inst < 0:
-                inst += max_count
+                raise IndexError('Index out of range')
         return inst
 
 
-- 
2.43.0


From 8d5be3cdaecd6e384bdbaaa87157f4a6ca06df3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 064/264] fix: SparseMatrix did not support ... as an index

---
 satella/coding/structures/sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 0c060b4..5206012 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -8,6 +8,8 @@ KeyArg = tp.Tuple[tp.Union[int, slice], tp.Union[int, slice]]
 
 
 def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
+    if inst is Ellipsis:
+        return Ellipsis
     if isinstance(inst, slice):
         if not (inst.start is None and inst.stop is None and inst.step is None):
             raise IndexError('Custom slicing is not supported!')
-- 
2.43.0


From 8fea298035298b682d0629729e4acfe24b35626b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 065/264] fix: deleting the last element of a SparseMatrix
 raised ValueError

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 5206012..62f8205 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -306,11 +306,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From 2a6fa5c4967976529249f0900b40e24ee77ae474 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 066/264] fix: SparseMatrix.delete_row() of a row without
 elements added it, spoiling the size and comparisons

---
 satella/coding/structures/sparse_matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 62f8205..bc6f315 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -231,9 +231,9 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
-        cols = list(self.rows_dict[row_no].keys())  # Copy it here
-        for col_no in cols:
-            del self[col_no, row_no]
+        if row_no in self.rows_dict:  # check so as to avoid adding new entries
+            for col_no in list(self.rows_dict[row_no].keys()):  # Copy it here
+                del self[col_no, row_no]
 
     def __setitem__(self, key: KeyArg,
                     value: tp.Union[tp.Iterable[T], T]) -> None:
-- 
2.43.0


From 737e5415edabbe46116543d2dd50006ac640be11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 067/264] fix: SparseMatrix.max() and min() failed if there was
 no element at 0, 0

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index bc6f315..979cc70 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -67,7 +67,7 @@ class SparseMatrix(tp.Generic[T]):
             for value in row:
                 if value is None:
                     continue
-                if value > item:
+                if item is None or value > item:
                     item = value
         return item
 
@@ -83,7 +83,7 @@ class SparseMatrix(tp.Generic[T]):
                 if value is None:
                     continue
 
-                if value < item:
+                if item is None or value < item:
                     item = value
         return item
 
-- 
2.43.0


From c52e6c89e43624c3150e702a93e70519b8b865ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 068/264] fix: ListDeleter going past the first element
 returned the last one

---
 satella/coding/deleters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..09f5e2b 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        if self.current_index < 0:
+            raise StopIteration()
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,6 +187,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
+        if self.current_index < 0:
+            raise StopIteration()
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
-- 
2.43.0


From eb2244cdaa573ae76a409a8daca44019eae06d5d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 069/264] fix: ListDeleter required the list to support slicing

---
 satella/coding/deleters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 09f5e2b..9eacbe0 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -224,7 +224,7 @@ class ListDeleter(tp.Generic[T]):
         """
         if not self.removed:
             index_delta = 0
-            for index, element in enumerate(self.list_to_process[:]):
+            for index in range(len(self.list_to_process)):
                 if index in self.indices_to_delete:
                     self.list_to_process.pop(index - index_delta)
                     index_delta += 1
-- 
2.43.0


From 30fc18056f7bb8d03ed980d06943beaddec4f566 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 070/264] fix: a ListDeleter removed nothing if it was iterated
 over again after remove_items()

---
 satella/coding/deleters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 9eacbe0..242775d 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -153,6 +153,7 @@ class ListDeleter(tp.Generic[T]):
     def __iter__(self) -> 'ListDeleter':
         self.current_index = -1 if self.direction == DIR_FORWARD else len(self.list_to_process)
         self.indices_to_delete = set()
+        self.removed = False
         return self
 
     def __next__(self) -> T:
-- 
2.43.0


From 650d79607d482a63d51140ddcb351608bfb4299c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:52:30 +0000
Subject: [PATCH 071/264] fix: a copy of a ListDeleter that has removed its
 items would remove others

---
 satella/coding/deleters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 242775d..ae366b0 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -240,4 +240,5 @@ class ListDeleter(tp.Generic[T]):
         ld.direction = self.direction
         ld.current_index = self.current_index
         ld.indices_to_delete = copy.copy(self.indices_to_delete)
+        ld.removed = self.removed
         return ld
-- 
2.43.0


From 80c39e734fd640a1c95fc67ffc0fdd3a9e22c390 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 072/264] fix: memoize executed the function in many threads at
 once, and gave out different values

---
 satella/coding/decorators/decorators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..9c924d9 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -1,4 +1,5 @@
 import inspect
+import threading
 import time
 import typing as tp
 import warnings
@@ -206,10 +207,11 @@ def memoize(fun):
     from satella.coding.concurrent.monitor import MonitorDict, Monitor
 
     fun.memoizer = MonitorDict()
+    lock = threading.RLock()    # the function may call itself
 
     @wraps(fun)
     def inner(*args, **kwargs):
-        with Monitor.acquire(fun.memoizer):
+        with lock, Monitor.acquire(fun.memoizer):
             if args in fun.memoizer:
                 return fun.memoizer[args]
             else:
-- 
2.43.0


From 0ce3788af6b3b962bc8601b712bafbeff76f8da0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 073/264] fix: SingletonWithRegardsTo made many instances from
 many threads, gave out ones being constructed, and kept those whose
 constructor raised

---
 satella/coding/structures/singleton.py | 35 +++++++++++++++-----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 95156cd..fd5dc66 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -75,23 +75,30 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
     def inner(cls):
 
         cls.__new_old__ = cls.__new__
+        lock = threading.RLock()
 
         @wraps(cls.__new__)
         def singleton_new(cls, *args, **kw):
-            it = cls.__dict__.get('__it__')
-            if it is None:
-                if weak_refs:
-                    it = cls.__it__ = weakref.WeakValueDictionary()
-                else:
-                    it = cls.__it__ = {}
-
-            key = args[:num_args]
-            if key in it:
-                return it[key]
-
-            inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
-            return inst
+            with lock:
+                it = cls.__dict__.get('__it__')
+                if it is None:
+                    if weak_refs:
+                        it = cls.__it__ = weakref.WeakValueDictionary()
+                    else:
+                        it = cls.__it__ = {}
+
+                key = args[:num_args]
+                inst = it.get(key)
+                if inst is not None:
+                    return inst
+
+                inst = it[key] = cls.__new_old__(cls)
+                try:
+                    inst.__init_old__(*args, **kw)
+                except BaseException:
+                    del it[key]
+                    raise
+                return inst
 
         cls.__new__ = singleton_new
         cls.__init_old__ = cls.__init__
-- 
2.43.0


From eb7da03e34f529a520dc5d050ef959b71f06180d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 074/264] fix: get_instances_for_singleton and
 delete_singleton_for failed with AttributeError before the first instance was
 made

---
 satella/coding/structures/singleton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index fd5dc66..4084b86 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -118,7 +118,7 @@ def get_instances_for_singleton(x) -> tp.List[tp.Tuple]:
     :param x: a class decorated with SingletonWithRegardsTo
     :return: a list of arguments
     """
-    return list(x.__it__)
+    return list(x.__dict__.get('__it__', ()))
 
 
 def delete_singleton_for(x, *args) -> None:
@@ -128,4 +128,4 @@ def delete_singleton_for(x, *args) -> None:
     :param x: class decorated with SingletonWithRegardsTo
     :param args: arguments used in the constructor
     """
-    del x.__it__[args]
+    del x.__dict__.get('__it__', {})[args]
-- 
2.43.0


From e4c8fc14443afd21190d588c073010c12ac6c3c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 075/264] fix: a recursive function under
 rethrow_as/silence_excs lost its own result

---
 satella/coding/recast_exceptions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..9b53f11 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -284,6 +284,8 @@ class rethrow_as:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        # nested calls in this thread may have left their own mark here
+        self.__exception_remapped.was_raised = False
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-- 
2.43.0


From 248f8cba5c3d7e9d712a3fe78948594c685bfbf5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 076/264] fix: reraise_as as a decorator ignored exceptions
 that are not Exceptions

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 9b53f11..fb7171f 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -172,7 +172,7 @@ class reraise_as:
         def inner(*args, **kwargs):
             try:
                 return fun(*args, **kwargs)
-            except Exception as e:          # pylint: disable=broad-except
+            except BaseException as e:          # pylint: disable=broad-except
                 if isinstance(e, self.source):
                     if self.target_exc is not None:
                         raise self.target_exc(*self.args, **self.kwargs) from e
-- 
2.43.0


From c04e93410d9791617a007875cb167e71b57e58ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 077/264] fix: log_exceptions as a decorator ignored exceptions
 that are not Exceptions

---
 satella/coding/recast_exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index fb7171f..aba1e4c 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -108,7 +108,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     yield from fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -119,7 +119,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     return fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
-- 
2.43.0


From d73b247cc3929b8f80730050f8a0e0e0b86347a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 078/264] fix: log_exceptions failed on a format string that
 formats, or looks into, its fields

---
 satella/coding/recast_exceptions.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index aba1e4c..c463d2c 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -87,15 +87,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
-- 
2.43.0


From cb8e5ac23ef65fd789b4c895102e8b52f6de8692 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:04:45 +0000
Subject: [PATCH 079/264] fix: log_exceptions lost the return value of a
 generator

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index c463d2c..c4e6ecb 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -101,7 +101,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From ce4c481f7eb67c4b282f1b0da8d637bfe5d9cf86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 080/264] fix: retry called call_between_retries also after the
 last attempt

---
 satella/coding/decorators/retry_dec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..847d576 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -62,6 +62,8 @@ def retry(times: tp.Optional[int] = None,
             else:
                 iterator = range(times)
             for i in iterator:
+                if i and call_between_retries is not None:
+                    call_between_retries(f)
                 try:
                     y = fun(*args, **kwargs)
                     if call_on_success is not None:
@@ -69,8 +71,6 @@ def retry(times: tp.Optional[int] = None,
                     return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
-                        call_between_retries(e)
                     continue
             else:
                 on_failure(f)
-- 
2.43.0


From eb1c6ee387de0d6709addc1d911bc1ddfd2ac9e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 081/264] fix: queue_get took an exception of the method itself
 for an empty queue

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
-- 
2.43.0


From a95050f5cf976e03bd3528e1670211d38a504a96 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 082/264] fix: transform_result and transform_arguments
 mishandled keyword arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From b6883b9a28706c6f7597cd82592c13aae01c0891 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 083/264] fix: replace_argument_if never asked its predicate

---
 satella/coding/decorators/arguments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 2f47c30..4e520c8 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,8 +153,9 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
+                    if predicate(v):
+                        args_dict[arg_name] = build_structure(structure, v)
+                        altered = True
                 elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
-- 
2.43.0


From 7460a10225ed1ea3dc200c3d173e80ec6b25f213 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 084/264] fix: get_arguments accepted arguments that the
 function does not take

---
 satella/coding/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..6250a50 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,6 +269,7 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
+    signature(function).bind(*args, **kwargs)   # raises TypeError
     return _get_arguments(function, False, *args, **kwargs)
 
 
-- 
2.43.0


From 5ee6ff92141f719fb8b2a1c2360fec25de2d823c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 085/264] fix: call_with_arguments passed positional arguments
 in place of missing ones

---
 satella/coding/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 6250a50..6a372cc 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -366,6 +366,8 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
                 continue
             elif param.default == Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            elif param_kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD):
+                args.append(param.default)  # or the next ones would take its place
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From cdbc2829b85b30493f01c5db57bdb415a816afd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 086/264] fix: get_arguments misplaced or rejected arguments
 when positional ones are passed by keyword

---
 satella/coding/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 6a372cc..e186cdc 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,8 +269,9 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    signature(function).bind(*args, **kwargs)   # raises TypeError
-    return _get_arguments(function, False, *args, **kwargs)
+    bound = signature(function).bind(*args, **kwargs)   # raises TypeError
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 # pylint: disable=too-many-locals
-- 
2.43.0


From ed901f21eb2bb3fbc2a9c832e5e2585f8b4653d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 087/264] fix: for_argument called the callable default values
 of arguments as operations

---
 satella/coding/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index e186cdc..552513f 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -305,7 +305,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise AttributeError()
                     break
                 except (AttributeError, TypeError):
-                    v = arg.default
+                    v = None if special_behaviour else arg.default
             local_vars[arg_name] = v
 
     keywords = [param for param in params if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
@@ -327,7 +327,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise TypeError('Not enough keyword arguments')
                     v = None
                 else:
-                    v = keyword.default
+                    v = None if special_behaviour else keyword.default
             except (AttributeError, TypeError):
                 continue  # comparison was impossible
 
-- 
2.43.0


From 854fbac790c4a1f4e4eb6f71d979823657437b17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 088/264] fix: chain_functions took any two positional
 arguments for args and kwargs

---
 satella/coding/decorators/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index 9c924d9..da39779 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -56,7 +56,7 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
-- 
2.43.0


From ad5406b9f8584e5be9f76a8614f66d714586133c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:15:42 +0000
Subject: [PATCH 089/264] fix: predicates did not know len(), so that a
 replace_argument_if predicate using it would fail

---
 satella/coding/predicates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..ce4bf01 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -187,6 +187,7 @@ class PredicateClass:
                                          'is an instance of instance')
 
     length = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
+    len = length
 
     __contains__ = make_operation_two_args(operator.contains)
     __getattr__ = make_operation_two_args(getattr)
-- 
2.43.0


From a5766d4adf75837e86929626f880f27cfbb0407a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 090/264] fix: inverting a predicate that returns a truth value
 negates it

---
 satella/coding/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index ce4bf01..09ef7fc 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -67,6 +67,10 @@ def _has_keys(a: tp.Container, keys) -> bool:
     return True
 
 
+def _invert(v: tp.Any) -> tp.Any:
+    return not v if isinstance(v, bool) else operator.invert(v)
+
+
 def _one_of(a, values: tp.Container) -> bool:
     return a in values
 
@@ -225,7 +229,7 @@ class PredicateClass:
     __rmod__ = make_operation_two_args(operator.mod, swap_order=True)
     __rpow__ = make_operation_two_args(operator.pow, swap_order=True)
     __neg__ = make_operation_single_arg(operator.neg)
-    __invert__ = make_operation_single_arg(operator.invert)
+    __invert__ = make_operation_single_arg(_invert)
     __abs__ = make_operation_single_arg(abs)
 
     def __hash__(self) -> int:
-- 
2.43.0


From 61d1dd3442450cd2ae3f4db1dc72dd06127324b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 091/264] fix: build_structure builds all the entries of a
 dictionary, also of an empty one

---
 satella/coding/predicates.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 09ef7fc..ce05fdb 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -268,8 +268,7 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
-                f = new_dict
-                break
+            f = new_dict
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From 3ba74b08a7919c66055e964c358a93d37f95aea7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 092/264] fix: build_structure does not recurse endlessly on
 strings

---
 satella/coding/predicates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index ce05fdb..af84520 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -269,6 +269,8 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
             f = new_dict
+        elif isinstance(struct, (str, bytes)):
+            f = struct
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From 7c870cd041ca699a8dac1562051893848ac993cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:34 +0000
Subject: [PATCH 093/264] fix: CPManager.invalidate() does not wait for a
 connection that somebody took in the meantime

---
 satella/coding/resources/cp_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..af98868 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -60,8 +60,11 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:
+                break
             self.teardown_connection(conn)
             del self.id_to_times[id(conn)]
 
-- 
2.43.0


From 04c1205f75350179c5a12c82f0d1af169c3cb322 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 094/264] fix: CPManager does not create connections after it
 has been closed by another thread

---
 satella/coding/resources/cp_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index af98868..3cdd753 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -82,6 +82,8 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         except queue.Empty:
             while True:
                 with silence_excs(queue.Empty), Monitor.acquire(self):
+                    if self.terminating:
+                        raise RuntimeError('CPManager is terminating')
                     if self.connections.qsize() >= self.max_number:
                         conn = self.connections.get(False, 5)
                         break
-- 
2.43.0


From c2d6a5230146c2626782c6af40b821c4557a7d15 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 095/264] fix: skip_first of a sequence shorter than that is
 empty

---
 satella/coding/sequences/iterators.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..b7fccd1 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -459,7 +459,6 @@ def zip_shifted(*args: tp.Union[Iteratable, tp.Tuple[Iteratable, int]]) -> \
 
 
 @for_argument(iter)
-@silence_excs(StopIteration)
 def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
     Skip first n elements from given iterator.
@@ -472,9 +471,7 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        next(iterator)
-    yield from iterator
+    yield from itertools.islice(iterator, n, None)
 
 
 class _ListWrapperIteratorIterator(tp.Iterator[T]):
-- 
2.43.0


From 295db5dbe340f790a7bf8f6264d5e733c5c163bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 096/264] fix: stop_after of a shorter sequence ends with it

---
 satella/coding/sequences/iterators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index b7fccd1..c270c23 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -602,7 +602,6 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         return self
 
 
-@silence_excs(StopIteration)
 @for_argument(iter)
 def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
@@ -619,8 +618,7 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        yield next(iterator)
+    yield from itertools.islice(iterator, n)
 
 
 @for_argument(iter)
-- 
2.43.0


From 08fc8c461880d8a89f1bfe4d974c077b3c9dc1d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 097/264] fix: take_n of a sequence shorter than what is
 skipped is empty

---
 satella/coding/sequences/iterators.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index c270c23..4234ddd 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -839,13 +839,4 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :param skip: elements from the start to skip
     :return: list of p_len n (or shorter)
     """
-    for i in range(skip):
-        next(iterator)
-
-    output = []
-    for i in range(n):
-        try:
-            output.append(next(iterator))
-        except StopIteration:
-            return output
-    return output
+    return list(itertools.islice(iterator, skip, skip + n))
-- 
2.43.0


From 1609cc080677199bd92f6173b53c87ef01df61e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 098/264] fix: is_last of an empty sequence is empty

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..d07f45f 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From 6c24836e178f9eb8511aef904dd4dd35c2756e07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 099/264] fix: Multirun does not omit the first element of an
 iterator

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index d07f45f..fabcc00 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        # a one-shot iterator would have its first element taken when looking up the method        self.sequence = list(sequence) if isinstance(sequence, tp.Iterator) else sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From 9837460b8bdf1c5ec97d81bad850eb1d113c118c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 100/264] fix: SyncableDroppable.get_archive gives what is in
 the database also when the memory is empty

---
 satella/coding/structures/syncable_droppable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..fd615d5 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,9 +208,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
+        if self.data_in_memory and self.first_key_in_memory <= start:
             # We'll serve it from memory
             for key, value in self.data_in_memory:
                 if key < start:
-- 
2.43.0


From 86c7946e1de635b7436d4f57614169e4c059be7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 101/264] fix: SyncableDroppable keeps in memory an entry
 exactly span_to_keep_in_memory old, only earlier ones are dropped

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index fd615d5..e53d0c7 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -260,7 +260,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         cutoff_point = self.stop_entry - self.span_to_keep_in_memory
         for index, row in enumerate(self.data_in_memory):
             ts, value = row
-            if ts > cutoff_point:
+            if ts >= cutoff_point:
                 for ts, value in self.data_in_memory[:index]:
                     self.db_storage.put(ts, value)
                 del self.data_in_memory[:index]
-- 
2.43.0


From 6b6cbfe9eee3dd1fa26b03d666e6665c58fcb51b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 102/264] fix: SyncableDroppable.cleanup_keep_in_db cleans the
 database also when the memory is empty

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index e53d0c7..1b7f70f 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -275,7 +275,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
         if self.start_entry == self.first_key_in_memory:
-- 
2.43.0


From 45b056229bff469a3e77bb7ea9371d27a92cd839 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 103/264] fix: SyncableDroppable.on_sync_request failed with an
 empty memory or a series starting at key 0

---
 satella/coding/structures/syncable_droppable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 1b7f70f..547d788 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -310,9 +310,9 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             self.start_entry = key
 
     def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
+        if self.start_entry is None:
             raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
+        if self.synced_up_to is not None and self.synced_up_to >= self.stop_entry:
             raise ValueError('Nothing to synchronize!')
 
     def _on_sync_request_synced_up_none(self, maximum_entries):
-- 
2.43.0


From 038636896e915d8de2313d224203c864267c915d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 104/264] fix: SyncableDroppable.on_sync_request honours
 maximum_entries for entries in the database, and gives what there was when
 called

---
 satella/coding/structures/syncable_droppable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 547d788..6c0a058 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -319,11 +319,14 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         # Sync everything
         iterator = self.db_storage.iterate(None)
         try:
-            data = list(iterator)
+            if maximum_entries == math.inf:
+                data = list(iterator)
+            else:
+                data = list(itertools.islice(iterator, maximum_entries))
             if len(data) < maximum_entries:
                 entries_left = maximum_entries - len(data)
                 if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
+                    data = itertools.chain(data, self.data_in_memory[:])
                 else:
                     data = itertools.chain(data, self.data_in_memory[:entries_left])
             return data
-- 
2.43.0


From f31ed5e01539c17ad6ad81e3488198173f36829a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 105/264] fix: SyncableDroppable.on_sync_request gives the
 entries after synced_up_to when those are in the database

---
 .../coding/structures/syncable_droppable.py   | 38 +++++++------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 6c0a058..3072428 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -333,37 +333,25 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         finally:
             try_close(iterator)
 
-    def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
-
     def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
+        if self.data_in_memory and self.first_key_in_memory <= self.synced_up_to:
             # Means we have to sync from memory
-            if self.synced_up_to is None:
-                v = self.data_in_memory
+            index = bisect.bisect_right([y[0] for y in self.data_in_memory],
+                                        self.synced_up_to)
+            if maximum_entries == math.inf:
+                v = self.data_in_memory[index:]
             else:
-                index = bisect.bisect_right([y[0] for y in self.data_in_memory],
-                                            self.synced_up_to)
-                if maximum_entries == math.inf:
-                    v = self.data_in_memory[index:]
-                else:
-                    v = self.data_in_memory[index:index + maximum_entries]
+                v = self.data_in_memory[index:index + maximum_entries]
         else:
             # We have to start off the disk
-            data = []
-            iterator = self.db_storage.iterate(self.start_entry)
+            v = []
+            iterator = self.db_storage.iterate(self.synced_up_to)
             try:
-                v = self.__append_item(data, iterator, maximum_entries)
+                for tpl in itertools.chain(iterator, self.data_in_memory):
+                    if len(v) >= maximum_entries:
+                        break
+                    if tpl[0] > self.synced_up_to:
+                        v.append(tpl)
             finally:
                 try_close(iterator)
         return v
-- 
2.43.0


From 5937433cae9d23062ffda22c05eb64db44e604a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:19 +0000
Subject: [PATCH 106/264] fix: SyncableDroppable does not lose data added while
 another thread moves it to the database

---
 satella/coding/structures/syncable_droppable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 3072428..ba457aa 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -231,6 +231,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             finally:
                 try_close(it)
 
+    @RMonitor.synchronized
     def get_latest_value(self) -> KVTuple:
         """
         Get the piece of data that was added here last
@@ -290,6 +291,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 return
             self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -356,6 +358,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 try_close(iterator)
         return v
 
+    @RMonitor.synchronized
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
@@ -375,6 +378,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             v = self._on_sync_request_synced_up_is_not_none(maximum_entries)
         return v
 
+    @RMonitor.synchronized
     def on_synced_up_to(self, key: K) -> None:
         """
         Called when data was successfully synced up to key included
-- 
2.43.0


From dd950d940c821945668d677a80d8ce04131c09d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 107/264] fix: hint_with_length around a generator function
 does not lose the length_factory

---
 satella/coding/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..8a7ff0a 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -117,7 +117,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From f1da93f1b4bddb6d0f26e42e6b02957a3f874541 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 108/264] fix: SelfClosingGenerator.send() returns what the
 generator yielded

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 8a7ff0a..6a2c012 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -59,8 +59,8 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        return self.generator.send(obj)
 
     def __next__(self):
         try:
-- 
2.43.0


From 729d2ac9f02ebd5e64971869ba48ab4ffc4b57c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 109/264] fix: run_when_generator_completes runs the action
 once, and also when the generator is completed by send()

---
 satella/coding/generators.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..2683112 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -29,26 +29,34 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         self.closed = True
         self.generator.close()
 
+    def _advance(self, operation, *args):
+        try:
+            return operation(*args)
+        except StopIteration:
+            if not self.closed:
+                self.closed = True
+                self.action_to_run(*self.args, **self.kwargs)
+            raise
+        except BaseException:
+            # the generator is over, and it did not complete
+            self.closed = True
+            raise
+
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self._advance(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self._advance(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
-        try:
-            return self.generator.__next__()
-        except StopIteration:
-            if not self.closed:
-                self.action_to_run(*self.args, **self.kwargs)
-            raise
+        return self._advance(self.generator.__next__)
 
     @abstractmethod
     def action_to_run(self):
-- 
2.43.0


From 42b941d27c2a07cb6ef8b88983f06a63687bb531 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 110/264] fix: negative indices and open slices of
 ListWrapperIterator take into account what is not loaded yet

---
 satella/coding/sequences/iterators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 4234ddd..99849ba 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -562,11 +562,17 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         """
         :raises IndexError: invalid index
         """
-        if isinstance(item, int):
-            if len(self.list) < item + 1:
-                self.advance_to_item(item + 1)
+        if isinstance(item, slice):
+            needs_all = item.stop is None or any(v is not None and v < 0 for v in
+                                                 (item.start, item.stop, item.step))
+            needed = item.stop
         else:
-            self.advance_to_item(item.stop)
+            needs_all = item < 0
+            needed = item + 1
+        if needs_all:
+            self.exhaust()
+        else:
+            self.advance_to_item(needed)
         return self.list[item]
 
     def __next__(self) -> T:
-- 
2.43.0


From 91586f0acf15416fb55b8b79b35e9c8a4e2f1414 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 111/264] fix: ListWrapperIterator can be iterated over many
 times

---
 satella/coding/sequences/iterators.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 99849ba..dc98b1f 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -488,10 +488,10 @@ class _ListWrapperIteratorIterator(tp.Iterator[T]):
         return self
 
     def __next__(self) -> T:
+        self.parent.advance_to_item(self.pos + 1)
         if self.pos >= len(self.parent.list):
-            item = self.parent.next()
-        else:
-            item = self.parent.list[self.pos]
+            raise StopIteration()
+        item = self.parent.list[self.pos]
         self.pos += 1
         return item
 
@@ -518,10 +518,14 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
     def __contains__(self, item: T) -> bool:
         if item not in self.list and self.exhausted:
             return False
-        for item2 in itertools.chain(self.list, self):
-            if item2 == item:
-                return True
-        return False
+        if item in self.list:
+            return True
+        try:
+            while True:
+                if next(self) == item:
+                    return True
+        except StopIteration:
+            return False
 
     def __init__(self, iterator: Iteratable[T]):
         self.iterator = iterator if isinstance(iterator, tp.Iterator) else iter(iterator)
@@ -605,7 +609,7 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         """
         Return a brand new iterator, that will use this iterator
         """
-        return self
+        return _ListWrapperIteratorIterator(self)
 
 
 @for_argument(iter)
-- 
2.43.0


From c7f7b64ca56646f71bca2aa0a8b71452ffac7586 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 112/264] fix: AlreadySeen accepts a mixture of hashable and
 unhashable elements

---
 satella/coding/sequences/iterators.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index dc98b1f..aee94ab 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = ('set', 'list')
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()
+        self.list = []  # elements that are not hashable
 
     def is_unique(self, key: K) -> bool:
         """
@@ -232,9 +233,6 @@ class AlreadySeen(tp.Generic[K]):
         :return: whether the element was seen for the first time
         """
         try:
-            hash(key)
-            if self.set is None:
-                self.set = set()
             if key in self.set:
                 return False
             self.set.add(key)
@@ -242,11 +240,9 @@ class AlreadySeen(tp.Generic[K]):
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list:
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
 
 
-- 
2.43.0


From 5cd3ec8a15517fa5d43891a026b038c277ff86dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:31 +0000
Subject: [PATCH 113/264] fix: a generator that could not be sent a value
 before its start can still complete

---
 satella/coding/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index 2683112..e81998d 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -38,8 +38,8 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
                 self.action_to_run(*self.args, **self.kwargs)
             raise
         except BaseException:
-            # the generator is over, and it did not complete
-            self.closed = True
+            # the generator is over without having completed, unless it has not been started
+            self.closed = getattr(self.generator, 'gi_frame', None) is None
             raise
 
     def send(self, value):
-- 
2.43.0


From 0ea4317404720bff5d47ea0e75850df91a1b3af0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 114/264] fix: DumpToFileHandler can have None as the sink for
 pickles

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..d270e89 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -67,7 +67,7 @@ class AsStream:
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
         elif self.mode == StreamType.MODE_DEVNULL:
-            self.o = DevNullFilelikeObject()
+            self.o = DevNullFilelikeObject(binary=not self.human_readable)
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
-- 
2.43.0


From 2a79337629ca492b19086c1902a75e5f5a85eb66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 115/264] fix: DumpToFileHandler writes the stack trace with
 local variables to loggers too, stack_info is only a flag

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index d270e89..2f758e1 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -114,7 +114,7 @@ class DumpToFileHandler(BaseExceptionHandler):
 
         for q in self.hr:
             if q.mode == StreamType.MODE_LOGGER:
-                q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
+                q.logger.log(q.level, '%s\n%s', value, tb.pretty_format(), exc_info=value)
             else:
                 with q as f:
                     f.write('Unhandled exception caught: \n')
-- 
2.43.0


From 2cf6b321d13befe6d910cc4bc60cc4824cd09e91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 116/264] fix: DumpToFileHandler dumps the exception, and not
 itself, when called for the main thread

---
 satella/exception_handling/dump_to_file.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 2f758e1..877934e 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -3,6 +3,8 @@ from __future__ import print_function, absolute_import, division
 import enum
 import logging
 import os
+import sys
+import traceback as tracebacks
 import typing as tp
 import uuid
 from logging import Logger
@@ -10,6 +12,7 @@ from logging import Logger
 from satella.coding import silence_excs
 from satella.files import DevNullFilelikeObject
 from satella.instrumentation import Traceback
+from satella.instrumentation.trace_back import frame_from_traceback
 from .exception_handlers import BaseExceptionHandler
 
 AsStreamTypeAccept = tp.Union[str, tp.IO, None, Logger, tp.Tuple[Logger, int]]
@@ -107,7 +110,12 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            if traceback is None or sys.exc_info()[1] is value:
+                tb = Traceback()
+            else:   # called by sys.excepthook, the exception is not in progress any more
+                tb = Traceback(frame_from_traceback(traceback))
+                tb.formatted_traceback = ''.join(
+                    tracebacks.format_exception(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
-- 
2.43.0


From 980b4bd1a42449c7a7874856e059c9d8905461be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 117/264] fix: MemoryErrorExceptionHandler refuses to be
 installed twice, as it was meant to

---
 satella/exception_handling/memerrhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/exception_handling/memerrhandler.py b/satella/exception_handling/memerrhandler.py
index 640fd33..8ed0d6d 100644
--- a/satella/exception_handling/memerrhandler.py
+++ b/satella/exception_handling/memerrhandler.py
@@ -34,6 +34,11 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
 
         from .global_eh import GlobalExcepthook
         GlobalExcepthook().add_hook(self)
+        self.installed = True
+
+    def uninstall(self):
+        super().uninstall()
+        self.installed = False
 
     def handle_exception(self, type_, value, traceback) -> tp.Optional[bool]:
         if not issubclass(type_, MemoryError):
-- 
2.43.0


From c66f7997381d5cce0ffe65ef9062dccaaaff41a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 118/264] fix: StoredVariableValue.from_json does not lose the
 pickle

---
 satella/instrumentation/trace_back/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..072d690 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -117,7 +117,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
-- 
2.43.0


From 261b458782a62b7e6fbd7a2287cfedeedb11e17d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 119/264] fix: a local variable whose repr() fails does not
 prevent storing a traceback

---
 satella/instrumentation/trace_back/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 072d690..de4f8b6 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -138,7 +138,10 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        try:
+            self.repr = repr(value)  # type: str
+        except Exception as e:
+            self.repr = '<repr unavailable due to %s>' % (e.__class__.__name__,)
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
-- 
2.43.0


From 5258afdd765131810fb323b5e995028d3c37d754 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 120/264] fix: StoredVariableValue.load_value raises ValueError
 when the class is not to be found

---
 satella/instrumentation/trace_back/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index de4f8b6..dee7012 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -195,7 +195,7 @@ class StoredVariableValue(JSONAble):
 
         try:
             return pickle.loads(pickle_)
-        except pickle.UnpicklingError:
+        except Exception:
             raise ValueError(
                 'object picklable, but cannot load in this environment')
 
-- 
2.43.0


From f64d69f03dd151aeb2c326e9e42e6c15be982499 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 121/264] fix: JSONAbleDataObject compares to values of other
 kinds as different, instead of raising AttributeError

---
 satella/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/json.py b/satella/json.py
index ac1286b..2d3f0b4 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -146,6 +146,8 @@ class JSONAbleDataObject:
     """
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, JSONAbleDataObject) or self.__class__ is not other.__class__:
+            return NotImplemented
         return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
 
     def __hash__(self) -> int:
-- 
2.43.0


From cf10dfd5bee99028275e1bfa2c50c4b985485500 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 122/264] fix: JSONAbleDataObject does not lose the fields of
 its base classes

---
 satella/json.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index 2d3f0b4..6d26c3c 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -145,14 +145,23 @@ class JSONAbleDataObject:
     >>> assert CultureContext.from_json(a.to_json) == a
     """
 
+    @classmethod
+    def _get_fields(cls) -> tp.List[str]:
+        """Names of all the fields, these of the base classes included, as these come first"""
+        fields = {}
+        for klass in reversed(cls.__mro__):
+            for field in klass.__dict__.get('__annotations__', ()):
+                fields[field] = None
+        return list(fields)
+
     def __eq__(self, other) -> bool:
         if not isinstance(other, JSONAbleDataObject) or self.__class__ is not other.__class__:
             return NotImplemented
-        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
+        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self._get_fields())
 
     def __hash__(self) -> int:
         hash_ = 0
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             hash_ ^= hash(getattr(self, annotation))
         return hash_
 
@@ -160,7 +169,7 @@ class JSONAbleDataObject:
         """
         :raises ValueError: a non-default value was not provided
         """
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             try:
                 annot_val = kwargs.pop(annotation)
                 setattr(self, annotation, annot_val)
@@ -171,7 +180,7 @@ class JSONAbleDataObject:
     def to_json(self) -> tp.Dict:
         """Convert self to JSONable value"""
         result = {}
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             result[annotation] = getattr(self, annotation)
         return result
 
-- 
2.43.0


From bddd54f93800765e4879edf40052088f37622e3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 123/264] fix: write_json_to_file does not truncate the file
 when the value cannot be encoded

---
 satella/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/json.py b/satella/json.py
index 6d26c3c..bc576d2 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -80,8 +80,9 @@ def write_json_to_file(path: str, value: JSONAble, **kwargs) -> None:
     """
     if kwargs:
         warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
+    encoded = JSONEncoder().encode(value)
     with open(path, 'w') as f_out:
-        f_out.write(JSONEncoder().encode(value))
+        f_out.write(encoded)
 
 
 def write_json_to_file_if_different(path: str, value: JSONAble,
-- 
2.43.0


From 063da1d77422a0ee1636c7104e524bac3a50e7a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 124/264] fix: AutoflushFile accepts the modes a+ and ab+, as
 it is documented to

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..ae5e63b 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -455,7 +455,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From ea73f72bf32f00f5ea65014ce995037b95915ca2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 125/264] fix: AutoflushFile keeps its position in the file
 between the calls

---
 satella/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index ae5e63b..2cc10b3 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -508,6 +508,8 @@ class AutoflushFile(Proxy[io.FileIO]):
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
+            if self.__dict__['pointer'] is not None:
+                file.seek(self.__dict__['pointer'])
             ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
             self.__dict__['pointer'] = ptr
-- 
2.43.0


From f6dd4a9de2bd70da46aad62256478de9395bedc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 126/264] fix: AutoflushFile.readall() does not raise
 AttributeError

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 2cc10b3..3fff9b1 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -502,7 +502,7 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
-- 
2.43.0


From c1cd8611eb2c8af1f210842fcbae6aaed1bbc228 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 127/264] fix: AutoflushFile is positioned after what it wrote
 if something was appended to the file by somebody else

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 3fff9b1..ca35f2b 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -541,6 +541,7 @@ class AutoflushFile(Proxy[io.FileIO]):
         """
         fle = self._open_file()
         val = fle.write(*args, **kwargs)
+        fle.flush()     # only now the position, as it is appending, is known
         self.__dict__['pointer'] = fle.tell()
         return val
 
-- 
2.43.0


From 6a294af70c1752020afb474ecede5b922c1c8e76 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:00:13 +0000
Subject: [PATCH 128/264] fix: split() does not loop forever on an absolute
 path

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index ca35f2b..c1a21dd 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:     # this is the root directory
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From 9bbad4482cf4c62cae78ace34a32876c12db3ca3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:00:13 +0000
Subject: [PATCH 129/264] fix: find_files applies the wildcard to the entire
 path in the subdirectories as well

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index c1a21dd..429bc3d 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -370,6 +370,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From bcff914c48dc0e077dfbb8d4ed4068366d3299df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:00:13 +0000
Subject: [PATCH 130/264] fix: DevNullFilelikeObject does not say that it is
 closed before it is, so that writelines() works

---
 satella/files.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index 429bc3d..b33d784 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -78,6 +78,11 @@ class DevNullFilelikeObject(io.FileIO):
         self.is_closed = False
         self.binary = binary
 
+    @property
+    def closed(self) -> bool:
+        """Has this object been closed"""
+        return self.is_closed
+
     @closed_devnull
     def tell(self) -> int:
         """
-- 
2.43.0


From 402a342652bc7a5a25038b45f17e342e62ad733e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 131/264] fix: ExponentialBackoff does not exceed its limit
 with the first failure

---
 satella/time/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..5f732e9 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
-- 
2.43.0


From 0baa69e03d778feb96a155ebcb899a916cd9187f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 132/264] fix: a failure of ExponentialBackoff is not lost when
 another thread checks the end of the previous delay at the same time

---
 satella/time/backoff.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 5f732e9..9615e09 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -89,15 +89,11 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until      # another thread may change it
+        if unavailable_until is None:
             return None
-        else:
-            t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
-                return None
-            else:
-                return self.unavailable_until - t
+        time_left = unavailable_until - time.monotonic()
+        return time_left if time_left > 0 else None
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -105,13 +101,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From 6d386f5bfc2be9e6acd3d0a7c65a641dd4cee7c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 133/264] fix: ExponentialBackoff.wait_until_available does not
 wait longer than the timeout

---
 satella/time/backoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 9615e09..b124c7d 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -84,6 +84,8 @@ class ExponentialBackoff:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
-- 
2.43.0


From 2737761f3b761464058a485d8ba8e3ba7edad851 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 134/264] fix: ExponentialBackoff.wait_until_available does not
 miss a success() called just before it started to wait

---
 satella/time/backoff.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index b124c7d..ee9a6ec 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -81,12 +81,13 @@ class ExponentialBackoff:
         """
         with measure(timeout=timeout) as m:
             while not m.timeouted:
-                tn = self.time_until_next_check()
-                if tn is None:
-                    return
-                if timeout is not None:
-                    tn = min(tn, m.time_remaining)
-                self.condition.wait(timeout=tn, dont_raise=True)
+                with self.condition:    # so that a success() is not missed
+                    tn = self.time_until_next_check()
+                    if tn is None:
+                        return
+                    if timeout is not None:
+                        tn = min(tn, m.time_remaining)
+                    self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
@@ -114,10 +115,11 @@ class ExponentialBackoff:
         """
         Called when something successes.
         """
-        self.counter = 0
-        self.grace_counter = 0
-        self.unavailable_until = None
-        self.condition.notify_all()
+        with self.condition:
+            self.counter = 0
+            self.grace_counter = 0
+            self.unavailable_until = None
+            self.condition.notify_all()
 
     def launch(self, exceptions_on_failed: ExceptionList = Exception,
                immediate: bool = False):
-- 
2.43.0


From e5e98336626b701705653d7c8152decd931c56e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 135/264] fix: measure.start() called after stop() resumes the
 measurement, instead of starting it anew

---
 satella/time/measure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..969073c 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -197,7 +197,6 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is not None:
             self.started_on = self.time_getter_callable() - self.elapsed
             self.stopped_on = None
-        self.started_on = self.time_getter_callable()
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 7fa4124d8ab4b58b07242316bc927277e42ed12b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 136/264] fix: leaving the context of a measure that was
 stopped inside does not raise TypeError

---
 satella/time/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 969073c..bf90a98 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -279,6 +279,6 @@ class measure:  # pylint: disable=invalid-name
         self.elapsed = self.stopped_on - self.started_on
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.stop_on_stop:
+        if self.stop_on_stop and not self.stopped:
             self.stop()
         return False
-- 
2.43.0


From 2c0734b75c4570563634551868217d39d22985c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 137/264] fix: sleep() does not raise ValueError if the time
 runs out between it checking that and going to sleep

---
 satella/time/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..ff8afa4 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -25,12 +25,14 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
         return False
 
     with measure() as measurement:
-        while measurement() < y:
+        time_left = y
+        while time_left > 0:
             try:
-                time.sleep(y - measurement())
+                time.sleep(time_left)
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
+            time_left = y - measurement()
     return True
 
 
-- 
2.43.0


From 029a57053b08827a2446d6f1f31dc55f982a5b76 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 138/264] fix: parse_time_string understands hours, minutes,
 days and weeks written in full

---
 satella/time/parse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..1cf6699 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -30,7 +30,14 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
         return s
 
     for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
-
-    return float(s)
+        number, found, rest = s.partition(modifier)
+        try:
+            number = float(number)
+        except ValueError:      # it is a letter of the name of another unit
+            continue
+        if not found:
+            return number
+        if not rest or rest.isalpha():
+            return number * multiple
+
+    raise ValueError('Invalid time string: %s' % (s,))
-- 
2.43.0


From de8ab2c0382ba6eada91ed7fc4db74ea7ae7b109 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 139/264] fix: ResourceLocked raised by PIDFileLock has the
 documented attributes

---
 satella/os/pidlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..4b1fde5 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -67,7 +67,9 @@ class PIDFileLock:
                 return self.acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
+                error = ResourceLocked(pid)
+                error.pid, error.is_alive = pid, True
+                raise error
             else:
                 # does not exist
                 os.unlink(self.path)
-- 
2.43.0


From 14bf4d9fa5f1197b25e193775284082f1de0d532 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:22:10 +0000
Subject: [PATCH 140/264] fix: PIDFileLock is not acquired by two processes if
 one finds the file of the other before the PID is written there, or both find
 a stale one

---
 satella/os/pidlock.py | 60 ++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 4b1fde5..14f4d5d 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -1,5 +1,10 @@
 import os
 
+try:
+    import fcntl
+except ImportError:  # Windows
+    fcntl = None
+
 import psutil
 
 from satella.exceptions import ResourceLocked
@@ -54,31 +59,38 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
+        while True:
+            file_no = os.open(self.path, os.O_CREAT | os.O_RDWR)
+            with os.fdopen(file_no, 'r+') as fd:
+                if fcntl is not None:
+                    # only one process at a time examines and writes the file
+                    fcntl.flock(file_no, fcntl.LOCK_EX)
+                if not self._is_current(file_no):
+                    continue    # it was removed in the meantime
+
+                try:
+                    pid = int(fd.read().strip())
+                except ValueError:
+                    pid = None      # its writer died before writing it
+
+                if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
+                    error = ResourceLocked(pid)
+                    error.pid, error.is_alive = pid, True
+                    raise error
+
+                fd.seek(0)
+                fd.truncate()
+                fd.write(str(os.getpid()) + '\n')
+                fd.flush()
+                self.file_no = file_no
+                return True
+
+    def _is_current(self, file_no) -> bool:
+        """Is this the file that is to be found under our path?"""
         try:
-            self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
-        except (OSError, FileExistsError):
-            with open(self.path, 'r') as fin:
-                data = fin.read().strip()
-
-            try:
-                pid = int(data)
-            except ValueError:
-                os.unlink(self.path)
-                return self.acquire()
-
-            if pid in {x.pid for x in psutil.process_iter()}:
-                error = ResourceLocked(pid)
-                error.pid, error.is_alive = pid, True
-                raise error
-            else:
-                # does not exist
-                os.unlink(self.path)
-                return self.acquire()
-
-        fd = os.fdopen(self.file_no, 'w')
-        fd.write(str(os.getpid()) + '\n')
-        fd.close()
-        return True
+            return os.path.samestat(os.stat(self.path), os.fstat(file_no))
+        except FileNotFoundError:
+            return False
 
     def __enter__(self) -> None:
         self.acquire()
-- 
2.43.0


From 94180c782777c1867b0b96ff2ae307e2e0f769aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:26:07 +0000
Subject: [PATCH 141/264] fix: the connection getter of a transaction may be
 any callable

---
 satella/db.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..8a9a3fa 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -1,4 +1,3 @@
-import inspect
 import logging
 
 logger = logging.getLogger(__name__)
@@ -36,12 +35,13 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
-            conn = self._connection()
+        conn = self._connection
+        # connections may be callable on their own, eg. those of sqlite3. A class of connections
+        # has a method called cursor, but it's still something to be called to get a connection.
+        if callable(conn) and (isinstance(conn, type) or not hasattr(conn, 'cursor')):
+            conn = conn()
             self._connection = conn
-            return conn
-        else:
-            return self._connection
+        return conn
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_val is None:
-- 
2.43.0


From ba0821ffde7df75595ae743392dd604a634166c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:26:07 +0000
Subject: [PATCH 142/264] fix: transaction closes the cursor and the connection
 even if the commit or the rollback fails

---
 satella/db.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index 8a9a3fa..13dbe35 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -44,17 +44,19 @@ class transaction:
         return conn
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
         if exc_val is not None and self.log_exception:
             logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
 
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            try:
+                if exc_val is None:
+                    self.connection.commit()
+                else:
+                    self.connection.rollback()
+            finally:
+                self.cursor.close()
+        finally:
+            if self.close_the_connection_after:
+                self.connection.close()
 
         return False
-- 
2.43.0


From 58135f6a1c052f5c4aa09df353c137aa51a208bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 143/264] fix: read_nowait reads the output while the process
 is running, so that one which writes more than the pipe holds does not hang

---
 satella/processes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..e43a6c2 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From 3c345990b88d01f95369995167ebfe5f07e12d58 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 144/264] fix: call_and_return_stdout decodes the entire
 output, as a character may be split between the pieces that were read

---
 satella/processes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index e43a6c2..6233844 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -79,10 +79,9 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     finally:
         fut.result()
 
-    if encoding is None:
-        result = b''.join(stdout_list)
-    else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+    result = b''.join(stdout_list)
+    if encoding is not None:
+        result = result.decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From 537f55658646087c5fcbb730a2279f1e3943c978 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 145/264] fix: hang_until_sig restores the signal handlers if a
 signal is given twice or if it fails

---
 satella/os/signals.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..2f95b5f 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -30,18 +30,20 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     old_term = signal.getsignal(signal.SIGTERM)
     olds = []
 
-    # Set the signal handler
-    signal.signal(signal.SIGTERM, __sighandler)
-    for s in extra_signals:
-        olds.append(signal.getsignal(s))
-        signal.signal(s, __sighandler)
-
-    while not end:
-        sleep(sleep_interval, True)
-
-    # Unset the signal handler
-    signal.signal(signal.SIGTERM, old_term)
-    for s, old_handler in zip(extra_signals, olds):
-        signal.signal(s, old_handler)
-
-    end = False  # reset for next use
+    try:
+        # Set the signal handler
+        signal.signal(signal.SIGTERM, __sighandler)
+        for s in extra_signals:
+            old_handler = signal.getsignal(s)
+            signal.signal(s, __sighandler)
+            olds.append((s, old_handler))
+
+        while not end:
+            sleep(sleep_interval, True)
+    finally:
+        # Unset the signal handlers, last one first, since the same signal might have been given twice
+        for s, old_handler in reversed(olds):
+            signal.signal(s, old_handler)
+        signal.signal(signal.SIGTERM, old_term)
+
+        end = False  # reset for next use
-- 
2.43.0


From 51e0f781310128cf3cee3601ff1f179d390d61a0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 146/264] fix: hang_until_sig returns upon SIGINT

---
 satella/os/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 2f95b5f..c5b7a79 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -33,7 +33,7 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     try:
         # Set the signal handler
         signal.signal(signal.SIGTERM, __sighandler)
-        for s in extra_signals:
+        for s in (signal.SIGINT, *extra_signals):
             old_handler = signal.getsignal(s)
             signal.signal(s, __sighandler)
             olds.append((s, old_handler))
-- 
2.43.0


From cad45604b383397b48c769185d5fa381aaafe44e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 147/264] fix: daemonize resolves the name of a group

---
 satella/os/daemon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..e147f8f 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -58,15 +58,15 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
-    _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd, 'getpwnam', 'pw_uid', os.seteuid)
+    _parse_ug(gid, grp, 'getgrnam', 'gr_gid', os.setegid)
 
 
-def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
+def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, fun_name: str, field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            no = getattr(getattr(module, fun_name)(no), field_name)
         osfun(no)
 
 
-- 
2.43.0


From 709ce1441ebe828bc31651ba2676f767d805506a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 148/264] fix: daemonize sets the group before it drops the
 privileges needed to do that

---
 satella/os/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index e147f8f..b7ac21a 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -58,8 +58,9 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'getpwnam', 'pw_uid', os.seteuid)
+    # group first, since an unprivileged user won't be allowed to change it
     _parse_ug(gid, grp, 'getgrnam', 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd, 'getpwnam', 'pw_uid', os.seteuid)
 
 
 def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, fun_name: str, field_name: str,
-- 
2.43.0


From 84b7c13d14a36a16a43c7fe57baa5162211a3e4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 149/264] fix: one can print() after daemonize

---
 satella/os/daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index b7ac21a..708c77a 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -72,9 +72,9 @@ def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, fun_name: str, f
 
 
 def _redirect_descriptors_to_null() -> None:
-    sys.stdin = open(DEVNULL, 'rb')
-    sys.stdout = open(DEVNULL, 'wb')
-    sys.stderr = open(DEVNULL, 'wb')
+    sys.stdin = open(DEVNULL, 'r')
+    sys.stdout = open(DEVNULL, 'w')
+    sys.stderr = open(DEVNULL, 'w')
 
 
 def _close_descriptors() -> None:
-- 
2.43.0


From 98aded78b0dbec162aecd7acc1e257b78fff49b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 150/264] fix: whereis does not return directories, and a
 looped symlink does not break it

---
 satella/os/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..8b3d00d 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -48,7 +48,7 @@ def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
         with silence_excs(FileNotFoundError):
-            if 'x' in stat.filemode(os.stat(path).st_mode):
+            if os.path.isfile(path) and 'x' in stat.filemode(os.stat(path).st_mode):
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
 
-- 
2.43.0


From b43ab07ddf995fc5b4cf8a885873a27da95a6ee1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 151/264] fix: whereis returns absolute paths also if a
 directory in PATH is relative

---
 satella/os/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 8b3d00d..51515d3 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -26,8 +26,8 @@ def whereis(name: str) -> tp.Iterator[str]:
         paths_to_look_in = os.environ.get('PATH', '').split(':')
         available_extensions = '',
 
-    for directory in paths_to_look_in:
-        yield from _whereis(directory, name, available_extensions)
+    for directory in filter(None, paths_to_look_in):
+        yield from _whereis(os.path.abspath(directory), name, available_extensions)
 
 
 def safe_listdir(directory: str) -> tp.Iterator[str]:
-- 
2.43.0


From 25ca24bae136b59d1b52fe61a0740234a3c22f00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 152/264] fix: getMetric does not register a metric that its
 parent refused, as next call would return a metric that is never reported

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..ade53bc 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -49,9 +49,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
                             **kwargs)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From 08e94ac917e764b252b2c92feaf6ee342c90b685 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 153/264] fix: arguments given to getMetric are for the last
 metric only, so that its parents do not replace the timestamps of all their
 children with their own

---
 satella/instrumentation/metrics/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index ade53bc..16e75f7 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,15 +40,14 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
         metrics[tentative_name] = metric
-- 
2.43.0


From 054254b41f028d633226dcea4dd32dfc1f2f27f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 154/264] fix: getMetric refuses letters whose uppercase is
 made of ASCII letters, such as a long s

---
 satella/instrumentation/metrics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 16e75f7..2822841 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -28,7 +28,7 @@ def adjust_metric_level_for_root(metric_level: tp.Optional[MetricLevel],
         return metric_level_to_set_for_children
 
 
-ALLOWED_CHARACTERS = string.ascii_uppercase + string.digits + ':' + '_' + '.'
+ALLOWED_CHARACTERS = string.ascii_letters + string.digits + ':' + '_' + '.'
 
 
 def _process_metric(name, name_index, metric_level, metric_level_to_set_for_children, name_part, root_metric,
@@ -71,7 +71,7 @@ def getMetric(metric_name: str = '',
     :raise MetricAlreadyExists: a metric having this name already exists, but with a different type
     :raise ValueError: metric name contains a forbidden character
     """
-    for character in metric_name.upper():
+    for character in metric_name:
         if character not in ALLOWED_CHARACTERS:
             raise ValueError('Metric name contains a forbidden character %s' % (character,))
 
-- 
2.43.0


From ea9d853a71edf8dc2302575460f82c2f4afbb25e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 155/264] fix: a metric that was reset is not reported by its
 parent along with the one that replaced it, and may be reset again

---
 satella/instrumentation/metrics/metric_types/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..49c8da2 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -60,7 +60,10 @@ class Metric:
             with metrics.metrics_lock:
                 metrics.metrics = {k: v for k, v in metrics.metrics.items() if
                                    not k.startswith(self.get_fully_qualified_name() + '.')}
-                del metrics.metrics[self.get_fully_qualified_name()]
+                metrics.metrics.pop(self.get_fully_qualified_name(), None)
+                # since it's no longer registered, it shouldn't be reported either
+                self.root_metric.children = [child for child in self.root_metric.children
+                                             if child is not self]
         self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
-- 
2.43.0


From 740b43f6a62e33bf6df3fd67021abb33741e8f09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 156/264] fix: values with labels that a metric had before
 reset() are reported after it

---
 satella/instrumentation/metrics/metric_types/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 49c8da2..52c9810 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -219,6 +219,10 @@ class EmbeddedSubmetrics(LeafMetric):
             # noinspection PyProtectedMember
             self.children_mapping[key]._handle(*args)
 
+    def reset(self) -> None:
+        super().reset()
+        self.children_mapping = {}
+
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
             v = MetricDataCollection()
-- 
2.43.0


From 1ab1a2d43ae9ce5b01062ef143811cf1ef8bc767 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 157/264] fix: MetricData.from_json does not destroy the
 dictionary it was given

---
 satella/instrumentation/metrics/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..99a6e61 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -58,6 +58,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
-- 
2.43.0


From 57325522d787546c296b1f28b99cf2be54b1d205 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 158/264] fix: a copy of MetricDataCollection does not share
 its contents with the original

---
 satella/instrumentation/metrics/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 99a6e61..d4ff45a 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -90,7 +90,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From 8ba56dd50e2c5301401bddcfa66b18a3c4e53715 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 159/264] fix: MetricDataCollection finds its elements after
 prefix_with and postfix_with, and the former returns self

---
 satella/instrumentation/metrics/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index d4ff45a..70ea9cf 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -132,11 +132,14 @@ class MetricDataCollection(JSONAble):
         """Prefix every child with given prefix and return self"""
         for child in self.values:
             child.prefix_with(prefix)
+        self.values = {child for child in self.values}  # as their hashes have changed
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
         for child in self.values:
             child.postfix_with(postfix)
+        self.values = {child for child in self.values}  # as their hashes have changed
         return self
 
     def __add_metric_data(self, other: MetricData):
-- 
2.43.0


From a4d204073b9c5a955948edaf5b8d5a40718960e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 160/264] fix: newlines in values of labels are escaped for
 Prometheus

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..2b3fe75 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From 07b59a574d83cc7cb1eb8caf60099655dfd94f4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 161/264] fix: exports_per_time of PrometheusHTTPExporterThread
 has the documented periods

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index 2b3fe75..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
-- 
2.43.0


From d29d0289e9b257e8a87a20869f9f762482c9c3f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 162/264] fix: two threads that report the first values with
 given labels do not lose one of them

---
 .../instrumentation/metrics/metric_types/base.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 52c9810..7d323b4 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -1,4 +1,5 @@
 import enum
+import threading
 import time
 import typing as tp
 
@@ -6,6 +7,10 @@ from satella.coding.decorators import for_argument
 from ..data import MetricData, MetricDataCollection
 
 
+# held when a submetric is created
+submetrics_lock = threading.RLock()
+
+
 class MetricLevel(enum.IntEnum):
     DISABLED = 1
     RUNTIME = 2
@@ -213,9 +218,11 @@ class EmbeddedSubmetrics(LeafMetric):
             # noinspection PyProtectedMember
             self.children_mapping[key]._handle(*args)
         else:
-            clone = self.clone(labels)
-            self.children_mapping[key] = clone
-            self.children.append(clone)
+            with submetrics_lock:
+                if key not in self.children_mapping:
+                    clone = self.clone(labels)
+                    self.children_mapping[key] = clone
+                    self.children.append(clone)
             # noinspection PyProtectedMember
             self.children_mapping[key]._handle(*args)
 
-- 
2.43.0


From 37bd298e5d60ac82d24fc729d0d0fad31da5aa89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 163/264] fix: values with labels of an internal metric are
 internal as well

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 7d323b4..78e4c9d 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -254,7 +254,7 @@ class EmbeddedSubmetrics(LeafMetric):
         """
 
         return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+                              internal=self.internal, **self.kwargs)
 
 
 from .registry import register_metric
-- 
2.43.0


From c2c49a3ebd42e1e791ac84ba04c4661c54e48127 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 164/264] fix: timestamp of a value with labels is that of its
 last update

---
 satella/instrumentation/metrics/metric_types/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 78e4c9d..d02b260 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -214,17 +214,17 @@ class EmbeddedSubmetrics(LeafMetric):
         else:
             return
 
-        if key in self.children_mapping:
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
-        else:
+        if key not in self.children_mapping:
             with submetrics_lock:
                 if key not in self.children_mapping:
                     clone = self.clone(labels)
                     self.children_mapping[key] = clone
                     self.children.append(clone)
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
+        child = self.children_mapping[key]
+        if child.enable_timestamp:
+            child.last_updated = time.time()
+        # noinspection PyProtectedMember
+        child._handle(*args)
 
     def reset(self) -> None:
         super().reset()
-- 
2.43.0


From 30f5068e8d5089e590d975bfcdaf9d8b7d6ab693 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 165/264] fix: the value of a counter has a timestamp, if it
 was asked for

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index d02b260..729e9a9 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -172,7 +172,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
-- 
2.43.0


From 418ffea327b0d26694e3c7840330be4f96e791ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 166/264] fix: the sum and the count of an internal histogram
 are internal as well

---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From aff632186586593479f2dcc2bf03d6ff6550dc29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 167/264] fix: LinkfailMetric reports the status of each
 address

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..1fe5a1c 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -81,5 +81,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From fdaca559ccc6a0c45e1bbc84c70919af5f3f2094 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 168/264] fix: LinkfailMetric reports the links that were given
 labels, and gives their address to the callbacks

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 1fe5a1c..2cd095e 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -48,8 +48,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
         self.consecutive_successes_to_online = consecutive_successes_to_online  # type: int
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
-        if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
+        if labels:
+            return super()._handle(success, address, *args, **labels)
         if success:
             self.consecutive_failures[address] = 0
             self.consecutive_successes[address] += 1
@@ -68,6 +68,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def to_metric_data(self) -> MetricDataCollection:
         mdc = MetricDataCollection()
+        for child in self.children:
+            mdc += child.to_metric_data()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
         for address in keys:
-- 
2.43.0


From fd1badcc2d357c33202f253b9210caf6fd6ce0c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 169/264] fix: SummaryMetric used by multiple threads does not
 exceed its window

---
 satella/instrumentation/metrics/metric_types/summary.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/summary.py b/satella/instrumentation/metrics/metric_types/summary.py
index 856ebe1..411da5f 100644
--- a/satella/instrumentation/metrics/metric_types/summary.py
+++ b/satella/instrumentation/metrics/metric_types/summary.py
@@ -37,7 +37,7 @@ class SummaryMetric(EmbeddedSubmetrics, MeasurableMixin):
                          aggregate_children=aggregate_children, count_calls=count_calls,
                          **kwargs)
         self.last_calls = last_calls  # type: int
-        self.calls_queue = collections.deque()  # type: tp.List[float]
+        self.calls_queue = collections.deque(maxlen=last_calls)  # type: tp.List[float]
         self.quantiles = quantiles  # type: tp.List[float]
         self.aggregate_children = aggregate_children  # type: bool
         self.count_calls = count_calls  # type: bool
@@ -52,9 +52,6 @@ class SummaryMetric(EmbeddedSubmetrics, MeasurableMixin):
         if labels or self.embedded_submetrics_enabled:
             return super()._handle(time_taken, **labels)
 
-        if len(self.calls_queue) == self.last_calls:
-            self.calls_queue.pop()
-
         self.calls_queue.appendleft(time_taken)
 
     def to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From f7fdae62409471f92572cbace80f344152cc29fe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 170/264] fix: cps may be read while other threads report to it

---
 satella/instrumentation/metrics/metric_types/cps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/cps.py b/satella/instrumentation/metrics/metric_types/cps.py
index 72ef9e5..bccc1bf 100644
--- a/satella/instrumentation/metrics/metric_types/cps.py
+++ b/satella/instrumentation/metrics/metric_types/cps.py
@@ -50,7 +50,7 @@ class ClicksPerTimeUnitMetric(EmbeddedSubmetrics):
                 return k
             else:
                 last_clicks = []
-                for child in self.children:
+                for child in list(self.children):
                     last_clicks.extend(child.last_clicks)
 
                 sum_data = self.count_vectors(last_clicks)
@@ -65,7 +65,7 @@ class ClicksPerTimeUnitMetric(EmbeddedSubmetrics):
         mono_time = time.monotonic()
         time_unit_vectors = [mono_time - v for v in self.time_unit_vectors]
 
-        for v in last_clicks:
+        for v in list(last_clicks):     # other threads might be changing it
             for index, cutoff in enumerate(time_unit_vectors):
                 if v >= cutoff:
                     count_map[index] += 1
-- 
2.43.0


From 22100457783868d8bd60c5809cbd5c58167ff077 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 171/264] fix: two metrics may measure the same future

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From 3d9abd35a7e3f7c7291135757b6c42f3d5540f6d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 172/264] fix: a measured generator returns what it returned

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From 275fa95f68a1b4ac06d7d8517f8367d2b7d65c41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 173/264] fix: MetrifiedThreadPoolExecutor completes the tasks
 left if it is garbage collected

---
 satella/instrumentation/metrics/structures/threadpool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..e90090b 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -34,14 +34,17 @@ def _worker(executor_reference, work_queue, initializer, initargs):
                 # Measure the time spent in waiting
                 executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
+                if executor is not None:
+                    executor.waiting_time_metric.handle(executor.metric_level,
+                                                        work_item.measure())
                 del executor
 
                 with measure() as measurement:
                     work_item.run()
 
                 executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                if executor is not None:
+                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
-- 
2.43.0


From 2bfff9ad41893d0c86c2e83af35f3cb8a9f1b695 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 174/264] fix: MetrifiedThreadPoolExecutor names its threads as
 it was asked to

---
 satella/instrumentation/metrics/structures/threadpool.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index e90090b..d47b404 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -102,9 +102,8 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
         self._broken = False
-        if not hasattr(self, '_thread_name_prefix'):
-            self._thread_name_prefix = thread_name_prefix or ("ThreadPoolExecutor-%d" %
-                                                              self._counter())
+        self._thread_name_prefix = thread_name_prefix or ("ThreadPoolExecutor-%d" %
+                                                          self._counter())
         self.waiting_time_metric = time_spent_waiting or EmptyMetric('')
         self.executing_time_metric = time_spent_executing or EmptyMetric('')
         self.metric_level = metric_level
-- 
2.43.0


From 01d3b08ee48cae7bcc8fca9df0f28d4cd5a8aa26 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 175/264] fix: values that several threads report to a metric
 are all counted

---
 .../metrics/metric_types/base.py              | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 729e9a9..6e2533e 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -7,10 +7,6 @@ from satella.coding.decorators import for_argument
 from ..data import MetricData, MetricDataCollection
 
 
-# held when a submetric is created
-submetrics_lock = threading.RLock()
-
-
 class MetricLevel(enum.IntEnum):
     DISABLED = 1
     RUNTIME = 2
@@ -38,7 +34,7 @@ class Metric:
     :param internal: if True, this metric won't be visible in exporters
     """
     __slots__ = ('name', 'root_metric', 'internal', '_level', 'enable_timestamp',
-                 'last_updated', 'children')
+                 'last_updated', 'children', 'lock')
 
     CLASS_NAME = 'base'
 
@@ -93,6 +89,7 @@ class Metric:
                 self.name == '' and self.level == MetricLevel.INHERIT), \
             'Unable to set INHERIT for root metric!'
         self.children = []  # type: tp.List[Metric]
+        self.lock = threading.RLock()  # held while a value is being handled
 
     def get_timestamp(self) -> tp.Optional[float]:
         """Return this timestamp, or None if no timestamp support is enabled"""
@@ -145,9 +142,10 @@ class Metric:
     @for_argument(None, MetricLevel)
     def handle(self, level: tp.Union[int, MetricLevel], *args, **kwargs) -> None:
         if self.can_process_this_level(level):
-            if self.enable_timestamp:
-                self.last_updated = time.time()
-            self._handle(*args, **kwargs)
+            with self.lock:
+                if self.enable_timestamp:
+                    self.last_updated = time.time()
+                self._handle(*args, **kwargs)
 
     def debug(self, *args, **kwargs):
         self.handle(MetricLevel.DEBUG, *args, **kwargs)
@@ -215,11 +213,9 @@ class EmbeddedSubmetrics(LeafMetric):
             return
 
         if key not in self.children_mapping:
-            with submetrics_lock:
-                if key not in self.children_mapping:
-                    clone = self.clone(labels)
-                    self.children_mapping[key] = clone
-                    self.children.append(clone)
+            clone = self.clone(labels)
+            self.children_mapping[key] = clone
+            self.children.append(clone)
         child = self.children_mapping[key]
         if child.enable_timestamp:
             child.last_updated = time.time()
-- 
2.43.0


From 92d9267377eab6543e103238595a13294a4de797 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 176/264] fix: terminate() of PrometheusHTTPExporterThread does
 not hang if it could not listen or was not started

---
 .../instrumentation/metrics/exporters/prometheus.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ec46f27..23ee59f 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -61,16 +61,20 @@ class PrometheusHTTPExporterThread(TerminableThread):
                 return self_2.get_metric_data()
 
         self.httpd = HTTPServer()
+        self.httpd.timeout = 0.5  # how often to check for termination
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
                                       time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
-        self.httpd.server_bind()
-        self.httpd.server_activate()
-        self.httpd.serve_forever()
-        self.httpd.server_close()
+        try:
+            self.httpd.server_bind()
+            self.httpd.server_activate()
+            while not self.terminating:
+                self.httpd.handle_request()
+        finally:
+            self.httpd.server_close()
 
     def get_metric_data(self) -> MetricDataCollection:
         """
@@ -88,7 +92,6 @@ class PrometheusHTTPExporterThread(TerminableThread):
 
         :param force: whether to terminate this thread by injecting an exception into it
         """
-        self.httpd.shutdown()
         return super().terminate(force=force)
 
 
-- 
2.43.0


From 95a7bff46e0de58565c84b4bce5a455cb26b5a7a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 177/264] fix: merge_dicts and MergingSource do not change what
 is merged later on

---
 satella/coding/algos.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/satella/coding/algos.py b/satella/coding/algos.py
index 1ceba6e..86e7288 100644
--- a/satella/coding/algos.py
+++ b/satella/coding/algos.py
@@ -1,8 +1,19 @@
+import copy
 import typing as tp
 
 __all__ = ['merge_dicts']
 
 
+def _copy_containers(v: tp.Any) -> tp.Any:
+    if not isinstance(v, (dict, list)):
+        return v
+    v = copy.copy(v)
+    if isinstance(v, dict):
+        for k in v:
+            v[k] = _copy_containers(v[k])
+    return v
+
+
 def merge_dicts(v1: tp.Any, v2: tp.Any) -> tp.Any:
     """
     Try to merge two dicts/list together. If key collision is found, value from v2 will be taken.
@@ -17,6 +28,8 @@ def merge_dicts(v1: tp.Any, v2: tp.Any) -> tp.Any:
                 v1[k] = merge_dicts(v1[k], v2[k])
             except KeyError:
                 v1[k] = v2[k]
+            if v1[k] is v2[k]:  # v1 is going to be updated in-place, v2 never is
+                v1[k] = _copy_containers(v2[k])
         return v1
 
     if isinstance(v1, list) and isinstance(v2, list):
-- 
2.43.0


From c38eb39fc42a6a3d23b50e9879da3e8678e55d3f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 178/264] fix: DirectorySource reads the files of a directory
 given by a relative path

---
 satella/configuration/sources/file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..258082e 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -101,9 +101,8 @@ class DirectorySource(FileSource):
             else:
                 raise ConfigurationError(f'Directory {directory} does not exist')
 
-        for file_name in files:
+        for fullname in files:
 
-            fullname = os.path.join(directory, file_name)
             if os.path.isfile(fullname):
                 sources.append(FileSource(fullname, encoding=self.encoding,
                                           interpret_as=self.source_classes))
-- 
2.43.0


From 798fb7355b1d7c627e932e982641928eb44c9886 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:04:13 +0000
Subject: [PATCH 179/264] fix: a dict argument of an unknown type is passed as
 it is by load_source_from_dict

---
 satella/configuration/sources/from_dict.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..6b252e0 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -31,6 +31,13 @@ EXTRA_TYPES = {
 }
 
 
+def is_source(type_) -> bool:
+    if not isinstance(type_, str):
+        return False
+    source = sources.__dict__.get(type_)
+    return isinstance(source, type) and issubclass(source, BaseSource)
+
+
 @rethrow_as(Exception, ConfigurationError)
 def load_source_from_dict(dct: dict) -> BaseSource:
     """
@@ -56,14 +63,13 @@ def load_source_from_dict(dct: dict) -> BaseSource:
     def to_arg(arg):
         if isinstance(arg, dict) and 'type' in arg:
             a_type = arg['type']
-            if a_type in EXTRA_TYPES:
+            if isinstance(a_type, str) and a_type in EXTRA_TYPES:
                 return EXTRA_TYPES[a_type](arg)
-            elif a_type in sources.__dict__:
+            elif is_source(a_type):
                 return load_source_from_dict(arg)
             else:
-                warnings.warn(
-                    'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                warnings.warn('%r is not a known type of source, returning original value' % (
+                    a_type,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From aec25c63387dcf850ef88316a26bff6339fe4987 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 180/264] fix: satella.configuration can be imported before
 satella.coding

---
 satella/coding/predicates.py                          | 3 +--
 satella/coding/structures/dictionaries/dict_object.py | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index af84520..1f05c70 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -2,7 +2,6 @@ import operator
 import typing as tp
 
 from satella.coding.typing import Predicate
-from satella.configuration.schema import Descriptor
 
 __all__ = ['x', 'build_structure', 'PredicateClass']
 
@@ -153,7 +152,7 @@ class PredicateClass:
         """
         return PredicateClass(self.operation)
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None, **kwargs):
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None, **kwargs):
         """
         Check if given value has the correct schema.
         The schema is the same as in
diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 38ef366..07e4cbc 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -2,7 +2,6 @@ import copy
 import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
-from satella.configuration.schema import Descriptor, descriptor_from_dict
 from satella.exceptions import ConfigurationValidationError
 
 
@@ -46,7 +45,7 @@ class DictObject(dict):
     def __delattr__(self, key):
         del self[key]
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None,
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None,
                         **kwarg_schema) -> bool:
         """
         Check if this dictionary conforms to particular schema.
@@ -59,6 +58,8 @@ class DictObject(dict):
         :param schema: schema to verify against
         :return: whether is conformant
         """
+        # imported here, since satella.configuration.schema needs satella.coding
+        from satella.configuration.schema import Descriptor, descriptor_from_dict
 
         if kwarg_schema:
             schema = kwarg_schema
-- 
2.43.0


From fd8405453aa51917c28d166715fc8ecbfcb3de3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 181/264] fix: a value that does not match a Regexp of the
 schema is ConfigurationValidationError

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From 5eeb86adf3e30211084e20951f21e7a0c4e372c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 182/264] fix: schema IPv4 accepts only addresses

---
 satella/configuration/schema/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..00f2cf2 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -231,4 +231,4 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4]\d|[01]?\d?\d)\.){3}(?:25[0-5]|2[0-4]\d|[01]?\d?\d)\Z'
-- 
2.43.0


From 35f3a0570c3fb02498aedb01bff1f25e86c93225 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 183/264] fix: contents of a file that cannot be read are
 ConfigurationValidationError

---
 satella/configuration/schema/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 00f2cf2..6054134 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -156,6 +156,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
+    MY_EXCEPTIONS = Descriptor.MY_EXCEPTIONS + [OSError]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
-- 
2.43.0


From 135afb98e6aae625b9a6e3dd54888e8a09d89d4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 184/264] fix: FileObject and DirectoryObject are equal to the
 string of their path

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 6054134..c978c1e 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -72,7 +72,7 @@ class FileObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, FileObject)
+        return isinstance(other, (str, FileObject)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
@@ -119,7 +119,7 @@ class DirectoryObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, DirectoryObject)
+        return isinstance(other, (str, DirectoryObject)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
-- 
2.43.0


From 67ac79bfb3d9725cd6960a7bf1f329c935cfa341 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 185/264] fix: a number that is not an integer is
 ConfigurationValidationError, also if it is infinite

---
 satella/configuration/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/base.py b/satella/configuration/schema/base.py
index 3abb886..db851a6 100644
--- a/satella/configuration/schema/base.py
+++ b/satella/configuration/schema/base.py
@@ -48,7 +48,7 @@ class Descriptor:
                  'my_exceptions')
 
     BASIC_MAKER = staticmethod(lambda v: v)
-    MY_EXCEPTIONS = [TypeError, ValueError]  # a list of Exception classes
+    MY_EXCEPTIONS = [TypeError, ValueError, OverflowError]  # a list of Exception classes
     CHECKERS = []  # a list of CheckerCondition
 
     def __init__(self):
-- 
2.43.0


From ec0ebc17a1aa525c96c351a7398e520829aa6f68 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 186/264] fix: Caster fails as other descriptors do, and can
 have checkers added

---
 satella/configuration/schema/structs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 7d55518..3abb7d5 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -55,11 +55,15 @@ class Caster(Descriptor):
     """
 
     def __init__(self, to_cast: tp.Callable[[tp.Any], tp.Any]):
+        super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as(ValueError, ConfigurationValidationError)
+    @rethrow_as((TypeError, ValueError), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
-        return self.to_cast(value)
+        self.pre_checkers(value)
+        value = self.to_cast(value)
+        self.post_checkers(value)
+        return value
 
 
 @register_custom_descriptor('dict', is_plain=False)
-- 
2.43.0


From 2e3e91636c1fb59eb15dd99be745629b83df8616 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 187/264] fix: changing a validated configuration does not
 change the default values of its schema

---
 satella/configuration/schema/structs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 3abb7d5..c842f9b 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -116,7 +116,9 @@ class Dict(Descriptor):
                 v = value.pop(key)
             except KeyError:
                 if key_descriptor.optional:
-                    output[key] = key_descriptor.default
+                    # so that changing the result does not change the default
+                    output[key] = copy.deepcopy(key_descriptor.default) if isinstance(
+                        key_descriptor.default, (list, dict)) else key_descriptor.default
                 else:
                     raise ConfigurationValidationError('required key %s not found' % (key,))
             else:
-- 
2.43.0


From 524efe191c0b8023f542e465b6c84fd9a5048946 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 188/264] fix: an unknown type in a schema is
 ConfigurationSchemaError

---
 satella/configuration/schema/from_json.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..33a9192 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -8,12 +8,9 @@ from .structs import create_key, Dict
 
 
 def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
-    try:
-        if value in PLAIN_ENTRIES:
-            return create_key(BASE_LOOKUP_TABLE[value](),
-                              key, False, None)
-    except KeyError:
+    if value not in PLAIN_ENTRIES:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
+    return create_key(BASE_LOOKUP_TABLE[value](), key, False, None)
 
 
 def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
@@ -55,6 +52,8 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
+        if type_ not in BASE_LOOKUP_TABLE:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
         descriptor = BASE_LOOKUP_TABLE[type_](*args)
         return create_key(descriptor, key, optional, default)
 
-- 
2.43.0


From 54b78d8a12b4beaefd77dfdfc6571c842bcaa600 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:02 +0000
Subject: [PATCH 189/264] fix: schema does not take integers for paths, closing
 the open file of that number

---
 satella/configuration/schema/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index c978c1e..8cb46c2 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -134,7 +134,7 @@ class DirectoryObject:
 
 @staticmethod
 def _make_file(v: str) -> bool:
-    if not os.path.isfile(v):
+    if not isinstance(v, (str, os.PathLike)) or not os.path.isfile(v):
         raise ConfigurationValidationError('Expected to find a file under %s'
                                            % (v,))
     return FileObject(v)
@@ -164,6 +164,9 @@ class FileContents(Descriptor):
         self.strip_afterwards = strip_afterwards
 
     def BASIC_MAKER(self, c: str):
+        if not isinstance(c, (str, os.PathLike)):
+            # an integer would be a descriptor of an open file, and reading it would close it
+            raise ConfigurationValidationError('Expected to find a path to a file', c)
         if not self.encoding:
             with open(c, 'rb') as f_in:
                 y = f_in.read()
@@ -178,7 +181,7 @@ class FileContents(Descriptor):
 
 @staticmethod
 def _make_directory(v: str) -> bool:
-    if not os.path.isdir(v):
+    if not isinstance(v, (str, os.PathLike)) or not os.path.isdir(v):
         raise ConfigurationValidationError('Expected to find a directory under %s'
                                            % (v,))
     return DirectoryObject(v)
-- 
2.43.0


From eb7945dea685cc881eb0c158360a77fa36a02db2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:52 +0000
Subject: [PATCH 190/264] fix: Caster of a number that is too big fails as
 other descriptors do

---
 satella/configuration/schema/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index c842f9b..e242d47 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -58,7 +58,7 @@ class Caster(Descriptor):
         super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as((TypeError, ValueError), ConfigurationValidationError)
+    @rethrow_as(tuple(Descriptor.MY_EXCEPTIONS), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
         self.pre_checkers(value)
         value = self.to_cast(value)
-- 
2.43.0


From 8ecca566add82aafc0aaabf36dca58bf6b9d54e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 191/264] fix: str() of a CustomException with keyword
 arguments does not fail

---
 satella/exceptions.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..8b98723 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -26,28 +26,17 @@ class CustomException(Exception):
         self.kwargs = kwargs
 
     def __str__(self) -> str:
-        a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s(%s)' % (self.__class__.__qualname__.split('.')[-1], self._repr_arguments())
 
     def __repr__(self) -> str:
-        a = '%s%s(%s' % ((self.__class__.__module__ + '.')
-                         if self.__class__.__module__ != 'builtins' else '',
-                         self.__class__.__qualname__,
-                         ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + (', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])),
-                                           self.kwargs.items())))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s%s(%s)' % ((self.__class__.__module__ + '.')
+                             if self.__class__.__module__ != 'builtins' else '',
+                             self.__class__.__qualname__, self._repr_arguments())
+
+    def _repr_arguments(self) -> str:
+        kwargs = getattr(self, 'kwargs', {})
+        return ', '.join([repr(arg) for arg in self.args] +
+                         ['%s=%r' % (key, value) for key, value in kwargs.items()])
 
 
 def get_base_of_bases(classes):
-- 
2.43.0


From df5a761c3b91931cda9d34a388d1ad38b79d7eb1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 192/264] fix: exceptions without a code are not instances of
 each other's classes

---
 satella/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 8b98723..0fe8d20 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -72,7 +72,7 @@ class CodedCustomExceptionMetaclass(type):
             return False
 
         try:
-            a = cls.code == instance.code
+            a = cls.code is not None and cls.code == instance.code
         except AttributeError:
             a = super().__instancecheck__(instance)
         return a
-- 
2.43.0


From 41fef545ce37d5fef4de427c29740135796c50b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 193/264] fix: import_from does not import unrelated packages
 that have the same name

---
 satella/imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/imports.py b/satella/imports.py
index b129afa..6c9189f 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -48,7 +48,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :param skip_not_having_all: skip module's not having an __all__ entry
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
-    for importer, modname, is_pkg in pkgutil.walk_packages(path, onerror=lambda x: None):
+    for importer, modname, is_pkg in pkgutil.iter_modules(path):
         if recursive and is_pkg:
             if modname.startswith('_') and skip_single_underscores:
                 continue
-- 
2.43.0


From d8ecd638faf1bb3f7b7b4c38d3ccf2d065434ebc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:36:20 +0000
Subject: [PATCH 194/264] fix: import_from skips modules it was asked to skip,
 and not only packages

---
 satella/imports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/imports.py b/satella/imports.py
index 6c9189f..8bd1cb5 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -70,10 +70,14 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
             if modname not in all_:
                 all_.append(modname)
         elif not is_pkg:
+            if modname.startswith('_') and skip_single_underscores:
+                continue
             module = importlib.import_module(package_prefix + '.' + modname)
             try:
                 package_ref = module.__all__
             except AttributeError:
+                if skip_not_having_all:
+                    continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
                 package_ref = dir(module)
-- 
2.43.0


From b2cb10f8ef65ef481e50a2a413e3bda89367c826 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 195/264] fix: intify raises ValueError for an infinity

---
 satella/coding/transforms/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index b87b5a0..4a59be7 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -149,10 +149,10 @@ def intify(v: tp.Any) -> int:
 
     try:
         return int(v)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             return len(v)
-        except (AttributeError, TypeError, ValueError):
+        except (AttributeError, TypeError, ValueError, OverflowError):
             raise ValueError('Unable to convert %s to int' % (v,))
 
 
-- 
2.43.0


From f5faa27cca20d86f6597d102aba107fd4881c8ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 196/264] fix: unpack_dict does not take a KeyError of
 map_through for a missing key

---
 satella/coding/transforms/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index 4a59be7..9390acf 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -44,12 +44,13 @@ def unpack_dict(dct: tp.Dict[K, V], *args: K,
     """
     for key in args:
         try:
-            yield map_through(dct[key])
+            value = dct[key]
         except KeyError:
-            if not raise_if_not_found:
-                yield None
-            else:
+            if raise_if_not_found:
                 raise
+            yield None
+        else:
+            yield map_through(value)
 
 
 def none_if_false(y: tp.Any) -> tp.Optional[tp.Any]:
-- 
2.43.0


From 8401cb5c7fa73b7c425733f1feda3ca20f50ea11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 197/264] fix: stringify converts enums in lists and
 dictionaries to their labels

---
 satella/coding/transforms/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index 9390acf..a7b9cc1 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -224,11 +224,11 @@ def stringify(obj: tp.Union[tp.Any], stringifier: tp.Callable[[tp.Any], str] = s
         y = obj.name
     elif isinstance(obj, collections.abc.Mapping):
         make_str = (lambda obj2: stringify(obj2, stringifier, True, str_none)) if recursively else \
-            stringifier
+            (lambda obj2: obj2.name if isinstance(obj2, enum.Enum) else stringifier(obj2))
         y = {make_str(k): make_str(v) for k, v in obj.items()}
     elif isinstance(obj, collections.abc.Sequence):
         make_str = (lambda obj2: stringify(obj2, stringifier, True, str_none)) if recursively else \
-            stringifier
+            (lambda obj2: obj2.name if isinstance(obj2, enum.Enum) else stringifier(obj2))
         y = [make_str(v) for v in obj]
     elif obj is None:
         y = _stringify_none(str_none, stringifier)
-- 
2.43.0


From 777acafea60e062e99c9ebe88447f98334cb6d54 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 198/264] fix: jsonify of an enum whose value is not JSON-able

---
 satella/coding/transforms/jsonify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 1b4184f..28ef5e6 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -23,7 +23,7 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, (int, float, str)):
         v = data
     elif isinstance(data, enum.Enum):
-        v = data.value
+        v = jsonify(data.value)
     elif isinstance(data, JSONAble):
         v = jsonify(data.to_json())
     elif isinstance(data, tp.Mapping):
-- 
2.43.0


From cf23093ee5ce0d087f64c0de29c0d789d1b40c3d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 199/264] fix: jsonify of a dictionary keyed by tuples

---
 satella/coding/transforms/jsonify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 28ef5e6..fc16007 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -29,7 +29,10 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, tp.Mapping):
         new_mapping = {}
         for key in data:
-            new_mapping[jsonify(key)] = jsonify(data[key])
+            new_key = jsonify(key)
+            if isinstance(new_key, (list, dict)):
+                new_key = str(new_key)
+            new_mapping[new_key] = jsonify(data[key])
         v = new_mapping
     elif isinstance(data, (tp.Iterable, tp.Iterator)):
         v = [jsonify(elem) for elem in data]
-- 
2.43.0


From b37ef3615f5a0804fed20ccba86422d6e2b15c82 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 200/264] fix: merge_list does not compare values

---
 satella/coding/transforms/merge_list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..5f76ef0 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -65,11 +66,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From f73e9e72721c58ef9ce31e035c16c05f02c97981 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 201/264] fix: merge_list does not recurse once per repeated
 key

---
 satella/coding/transforms/merge_list.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index 5f76ef0..6d7fe12 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -50,15 +50,15 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
         if self.closed:
             raise StopIteration()
 
-        try:
-            k2, v2, i2 = self.pop()
-        except IndexError:
-            self.closed = True
-            return self.k, self.v
-
-        if k2 == self.k:
+        while True:
+            try:
+                k2, v2, i2 = self.pop()
+            except IndexError:
+                self.closed = True
+                return self.k, self.v
+            if k2 != self.k:
+                break
             self.v = self.merge_func(self.v, v2)
-            return next(self)
 
         try:
             return self.k, self.v
-- 
2.43.0


From 61cac3e17c74ca974883bf6e81f1fe43b1af211f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 202/264] fix: merge_series does not lose values when the
 series start at different times

---
 satella/coding/transforms/merger.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..69373f9 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -16,7 +16,7 @@ class merge_series:
 
     :raises ValueError: one of the given series was empty
     """
-    __slots__ = ('series', 'next_preloaded_values', 'empty', 'timestamps',
+    __slots__ = ('series', 'next_preloaded_values', 'empty', 'timestamps', 'start',
                  'super_next_preloaded_values')
 
     def __init__(self, *series: tp.Iterator[tp.Tuple[float, tp.Any]]):
@@ -32,6 +32,7 @@ class merge_series:
         self.timestamps = SetHeap()
         timestamps = {x[0] for x in self.next_preloaded_values}
         max_ts = max(timestamps)
+        self.start = max_ts
         self.timestamps.push(max_ts)
 
         self.super_next_preloaded_values = []
@@ -39,13 +40,20 @@ class merge_series:
             try:
                 value = next(series)
                 self.super_next_preloaded_values.append(value)
-                self.timestamps.push(value[0])
+                self.push_timestamp(value[0])
             except StopIteration:
                 self.super_next_preloaded_values.append(None)
 
     def __iter__(self) -> tp.Iterator:
         return self
 
+    def push_timestamp(self, ts: float) -> None:
+        """
+        Schedule a timestamp to be reported, unless some series had no value then yet
+        """
+        if ts >= self.start:
+            self.timestamps.push(ts)
+
     def advance(self, i: int) -> None:
         """
         :param i: timestamp to advance to
@@ -57,7 +65,7 @@ class merge_series:
             self.next_preloaded_values[i] = self.super_next_preloaded_values[i]
             try:
                 self.super_next_preloaded_values[i] = next(self.series[i])
-                self.timestamps.push(self.super_next_preloaded_values[i][0])
+                self.push_timestamp(self.super_next_preloaded_values[i][0])
             except StopIteration:
                 self.super_next_preloaded_values[i] = None
 
-- 
2.43.0


From cd094540044e2a1c7b69a6e581a00906e0f17cf1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:09:14 +0000
Subject: [PATCH 203/264] fix: merge_series reports the starting timestamp once

---
 satella/coding/transforms/merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 69373f9..d60b759 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -51,7 +51,7 @@ class merge_series:
         """
         Schedule a timestamp to be reported, unless some series had no value then yet
         """
-        if ts >= self.start:
+        if ts > self.start:
             self.timestamps.push(ts)
 
     def advance(self, i: int) -> None:
-- 
2.43.0


From 6ad6cb296bbd5741fbc39c745c7075bbda757cdd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 204/264] fix: a BinaryParser of length 0 is empty, and not one
 of the whole stream

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..a024d54 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,7 +40,7 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
+        self.length = len(b_stream) if length is None else length
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
 
-- 
2.43.0


From 508935ab49833b987265e7e9c52f4570d3fc754e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 205/264] fix: a BinaryParser does not reach past the end of
 the stream

---
 satella/parsing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/parsing.py b/satella/parsing.py
index a024d54..f585214 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -43,6 +43,7 @@ class BinaryParser:
         self.length = len(b_stream) if length is None else length
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
+        self.length = min(self.length, len(self.b_stream) - offset)
 
     def __bytes__(self) -> bytes:
         return self.b_stream[self.init_ofs:self.init_ofs + self.length]
-- 
2.43.0


From cafea81ee6e2198d2d077461f08530d1ab7dc867 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 206/264] fix: bytes() of a BinaryParser of a bytearray

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index f585214..c986e0f 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -46,7 +46,7 @@ class BinaryParser:
         self.length = min(self.length, len(self.b_stream) - offset)
 
     def __bytes__(self) -> bytes:
-        return self.b_stream[self.init_ofs:self.init_ofs + self.length]
+        return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
 
     def skip(self, n: int) -> None:
         """
-- 
2.43.0


From 737c15a4908fb3a6767869ff1d9461506213dc8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 207/264] fix: BinaryParser.get_struct accepts the = prefix

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index c986e0f..36c5597 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -136,7 +136,7 @@ class BinaryParser:
         """
         st = self._to_struct(st)
 
-        if st.format[0] in {'>', '<', '!', '@'}:
+        if st.format[0] in {'>', '<', '!', '@', '='}:
             assert len(st.format) == 2, 'Format must span at most 1 character, use ' \
                                         'get_structs for multiples!'
         else:
-- 
2.43.0


From 4d604699236371e24645683ca6183f49334a2376 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 208/264] fix: Proxy wraps the results of | and & if asked to

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..99445e0 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -183,9 +183,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From 71eae67dcfe8e122602f2bba6b3c923524d3a1e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 209/264] fix: Proxy supports the modulo operator

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 99445e0..aa7b739 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -133,6 +133,18 @@ class Proxy(tp.Generic[T]):
     def __rdivmod__(self, other):
         return divmod(other, self.__obj)
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
     @wrap_operation
     def __truediv__(self, other):
         return self.__obj / other
-- 
2.43.0


From f008b338cf07468795178b0efd033532f897aba1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 210/264] fix: a Proxy can be awaited

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index aa7b739..03f39cd 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -304,7 +304,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From 1ca8d15787e3cc71f6cd324ad4b6394cdd00cb57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 211/264] fix: round() of a Proxy answers as round() of what it
 wraps

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 03f39cd..4845584 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -355,7 +355,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From caad5e1ca03091456148ed33231f95520a1ed5cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 212/264] fix: a Proxy can be copied

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 4845584..bf5d28c 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -84,6 +84,8 @@ class Proxy(tp.Generic[T]):
             setattr(self.__obj, key, value)
 
     def __getattr__(self, item: str):
+        if item in _SETTABLE_KEYS:      # not initialized yet, eg. while it is being copied
+            raise AttributeError(item)
         return getattr(self.__obj, item)
 
     def __delattr__(self, item) -> None:
-- 
2.43.0


From c741d0de01878515959dcdd62fb8e4bfcd210550 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 213/264] fix: frozendict forbids all the ways to change it

---
 satella/coding/structures/immutable.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..5cae6d7 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,24 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    def __delitem__(self, key):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def pop(self, *args):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def popitem(self):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def clear(self):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def setdefault(self, *args):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def __ior__(self, other):
+        raise TypeError('Cannot update a frozen dict!')
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From 85755f530b00ec4a1b2e6073d4e029abb2ce58d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 214/264] fix: a frozendict can be copied and pickled

---
 satella/coding/structures/immutable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 5cae6d7..eb6866c 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -94,6 +94,9 @@ class frozendict(dict):
     def __ior__(self, other):
         raise TypeError('Cannot update a frozen dict!')
 
+    def __reduce__(self):
+        return self.__class__, (dict(self),)
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From 2626976f035747f2b1adc3b3ea157d898be65c56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 215/264] fix: typednamedtuple makes instances of the class it
 returned

---
 satella/coding/structures/typednamedtuple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..9e22451 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -57,6 +57,7 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
             if len(kwargs) > 0:
                 raise TypeError('Too many parameters')
 
-            return MyCls.__new__(MyCls, *nargs)
+            return MyCls.__new__(cls, *nargs)
 
+    Wrapper.__name__ = Wrapper.__qualname__ = cls_name
     return Wrapper
-- 
2.43.0


From 52b3a8cf28618ccd2c7ce42b47067cab1c17184c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 216/264] fix: typednamedtuple does not drop excess arguments
 silently

---
 satella/coding/structures/typednamedtuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 9e22451..6ef0856 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -46,6 +46,8 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
 
         def __new__(cls, *args, **kwargs):
 
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
             for next_field_name in fieldnames[len(nargs):]:
-- 
2.43.0


From 6b3c10d0643a662936ae5e55d3aa40d8f8b69ef2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 217/264] fix: HashableWrapper overrides != as well as ==

---
 satella/coding/structures/hashable_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/hashable_objects.py b/satella/coding/structures/hashable_objects.py
index 635484b..9818756 100644
--- a/satella/coding/structures/hashable_objects.py
+++ b/satella/coding/structures/hashable_objects.py
@@ -31,3 +31,6 @@ class HashableWrapper(Proxy):
         else:
             obj2 = other
         return id(my_object) == id(obj2)
+
+    def __ne__(self, other) -> bool:
+        return not self == other
-- 
2.43.0


From 9bb8d131a03c05512e178c283326379905ace1ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 218/264] fix: an empty Optional compares false instead of
 raising TypeError

---
 satella/coding/optionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..2da5d02 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me < other
+
+    def __le__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me <= other
+
+    def __gt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me > other
+
+    def __ge__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me >= other
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
-- 
2.43.0


From 09ac2b4a1c12105f15746a61225a62c7ffcd9585 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 219/264] fix: entering a Context keeps the variables it was
 made with

---
 satella/coding/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..258b0ae 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -56,7 +56,8 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
+        # a layer entered once more is below the new one already
+        ctxt = Context(parent, **({} if self is parent else self.variables))
         ctxt.parent = parent
         local.thread_context = ctxt
         return ctxt
-- 
2.43.0


From c6d8ad0e421a3baee64a16907bde1fe0e799ad72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 220/264] fix: leaving a nested Context returns to the one it
 was entered from

---
 satella/coding/environment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 258b0ae..284ead1 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -88,13 +88,15 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
+        # self is what was entered, its layer is the current one
+        parent = self.get().parent
+        if parent is None:
             try:
                 del local.thread_context
             except AttributeError:
                 pass
         else:
-            local.thread_context = self.parent
+            local.thread_context = parent
         return False
 
     @staticmethod
-- 
2.43.0


From cb458e2894bc6e2769a9346a076a627cb7c8e095 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 221/264] fix: Context.push_up takes the current value of an
 inherited variable

---
 satella/coding/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 284ead1..f52900f 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -35,7 +35,8 @@ class Context:
         :param value: if not given, current value of given variable will be taken
         """
         if value is THEY_HATIN:
-            var = self.variables.pop(item)
+            var = getattr(self, item)
+            self.variables.pop(item, None)
         else:
             var = value
         self.parent.variables[item] = var
-- 
2.43.0


From bc42e641a74cea5a30dfada2cc4e5e0f667fd590 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 222/264] fix: members of a ComparableEnum can be hashed

---
 satella/coding/structures/mixins/enums.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/mixins/enums.py b/satella/coding/structures/mixins/enums.py
index 51201ea..f14f42f 100644
--- a/satella/coding/structures/mixins/enums.py
+++ b/satella/coding/structures/mixins/enums.py
@@ -40,6 +40,9 @@ class ComparableEnum(enum.Enum):
         except ValueError:  # other is not a correct member of this class!
             return False
 
+    def __hash__(self) -> int:
+        return hash(self.value)     # as it is equal to its value
+
 
 class HashableIntEnum(enum.IntEnum):
     """
-- 
2.43.0


From d91407adf9395240bf22089a19ffedf009742538 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 223/264] fix: a ComparableIntEnum is unequal to what has no
 int(), and != is the opposite of ==

---
 satella/coding/structures/mixins/enums.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/mixins/enums.py b/satella/coding/structures/mixins/enums.py
index f14f42f..5d061e0 100644
--- a/satella/coding/structures/mixins/enums.py
+++ b/satella/coding/structures/mixins/enums.py
@@ -88,7 +88,13 @@ class ComparableIntEnum(HashableIntEnum):
     def __eq__(self, other: 'ComparableIntEnum') -> bool:
         if isinstance(other, (int, float)):
             return self.value == other
-        return self.value == int(other)
+        try:
+            return self.value == int(other)
+        except (TypeError, ValueError):
+            return False
+
+    def __ne__(self, other: 'ComparableIntEnum') -> bool:
+        return not self == other
 
 
 class OnStrOnlyName:
-- 
2.43.0


From 210f44a2b52289c325cc61ef240239330d8f9c32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 224/264] fix: a DictionaryEQAble is not equal to one with more
 attributes

---
 satella/coding/structures/mixins/eqable.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1928812 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -1,6 +1,3 @@
-from ..immutable import NOT_EQUAL_TO_ANYTHING
-
-
 class DictionaryEQAble:
     """
     A class mix-in that defines __eq__ and __ne__ to be:
@@ -12,15 +9,9 @@ class DictionaryEQAble:
     def __eq__(self, other) -> bool:
         if type(self) != type(other):
             return False
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return False
-        return True
+        return self.__dict__ == other.__dict__
 
     def __ne__(self, other) -> bool:
         if type(self) != type(other):
             return True
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return True
-        return False
+        return self.__dict__ != other.__dict__
-- 
2.43.0


From 75138648a6540efb761f1cd18fab71b3638bd711 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 225/264] fix: what is comparable by a field or by int can be
 compared to anything for equality

---
 satella/coding/structures/mixins/hashable.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/mixins/hashable.py b/satella/coding/structures/mixins/hashable.py
index 404cbd3..294cf47 100644
--- a/satella/coding/structures/mixins/hashable.py
+++ b/satella/coding/structures/mixins/hashable.py
@@ -53,7 +53,11 @@ class ComparableAndHashableBy(metaclass=ABCMeta):
         return hash(getattr(self, self._COMPARABLE_BY))
 
     def __eq__(self, other: 'ComparableAndHashableBy') -> bool:
-        return getattr(self, self._COMPARABLE_BY) == getattr(other, other._COMPARABLE_BY)
+        try:
+            value = getattr(other, other._COMPARABLE_BY)
+        except AttributeError:
+            return NotImplemented
+        return getattr(self, self._COMPARABLE_BY) == value
 
     def __lt__(self, other: 'ComparableAndHashableBy') -> bool:
         return getattr(self, self._COMPARABLE_BY) < getattr(other, other._COMPARABLE_BY)
@@ -83,7 +87,11 @@ class ComparableAndHashableByInt(metaclass=ABCMeta):
         return hash(int(self))
 
     def __eq__(self, other: 'ComparableAndHashableByInt') -> bool:
-        return int(self) == int(other)
+        try:
+            value = int(other)
+        except (TypeError, ValueError):
+            return NotImplemented
+        return int(self) == value
 
     def __lt__(self, other: 'ComparableAndHashableByInt') -> bool:
         return int(self) < int(other)
-- 
2.43.0


From 77880ff6e9ee03e56222924712e179431923632b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 226/264] fix: assert_equal raises Inequal for containers of
 different kinds

---
 satella/coding/deep_compare.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..e507730 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -22,6 +22,11 @@ class Inequal(Exception):
         self.reason = reason
 
 
+def _assert_is(a, b, types):
+    if not isinstance(b, types):
+        raise Inequal(a, b, InequalityReason.NOT_EQUAL)
+
+
 def assert_equal(a, b):
     """
     Assert that two values are equal. If not, an :class:`satella.coding.Inequality` exception
@@ -38,16 +43,19 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        _assert_is(a, b, (set, frozenset))
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        _assert_is(a, b, (list, tuple))
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        _assert_is(a, b, dict)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From df894b80e6a7fe2e31cbec4bc604c0e347d3918d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 227/264] fix: assert_equal does not take objects that cannot
 be compared for equal ones

---
 satella/coding/deep_compare.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index e507730..ab0d66c 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -27,6 +27,13 @@ def _assert_is(a, b, types):
         raise Inequal(a, b, InequalityReason.NOT_EQUAL)
 
 
+def _is_equal(a, b) -> bool:
+    try:
+        return bool(a == b)
+    except TypeError:       # they cannot be compared at all
+        return False
+
+
 def assert_equal(a, b):
     """
     Assert that two values are equal. If not, an :class:`satella.coding.Inequality` exception
@@ -39,7 +46,7 @@ def assert_equal(a, b):
     :raises Inequal: objects were not equal
     """
     if isinstance(a, (int, float, str, bytes, bytearray, type(None))):
-        if a != b:
+        if not _is_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
@@ -63,9 +70,5 @@ def assert_equal(a, b):
                 raise Inequal(key, None, InequalityReason.KEY_NOT_FOUND)
             assert_equal(a[key], b[key])
     else:
-        try:
-            if a == b:
-                return
+        if not _is_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
-        except TypeError:
-            pass
-- 
2.43.0


From c6a7548ef1719ed89baf427f3ba24154c3b67adc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 228/264] fix: overload would raise upon a signature that takes
 a different number of arguments

---
 satella/coding/overloading.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index fb8fdbe..a60abe8 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -84,7 +84,10 @@ class TypeSignature(inspect.Signature):
         """
         Does this invocation match this signature?
         """
-        bound_args = self.bind(*args, **kwargs)
+        try:
+            bound_args = self.bind(*args, **kwargs)
+        except TypeError:
+            return False
         bound_args.apply_defaults()
         for param_name, param_value in bound_args.arguments.items():
             if not isinstance(param_value, self._parameters[param_name].annotation):
-- 
2.43.0


From 4e7e34489580cb7a93defd0d4786751781ca45b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 229/264] fix: overload would never call a function having an
 argument without an annotation

---
 satella/coding/overloading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index a60abe8..2d6807b 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -90,7 +90,8 @@ class TypeSignature(inspect.Signature):
             return False
         bound_args.apply_defaults()
         for param_name, param_value in bound_args.arguments.items():
-            if not isinstance(param_value, self._parameters[param_name].annotation):
+            annotation = self._parameters[param_name].annotation
+            if annotation is not inspect.Parameter.empty and not isinstance(param_value, annotation):
                 return False
         return True
 
-- 
2.43.0


From 58fb0d115435ec6ba1c715677abab044874e7d0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 230/264] fix: every type signature was more generic than any
 other, itself included

---
 satella/coding/overloading.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index 2d6807b..39b6a70 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -66,16 +66,22 @@ class TypeSignature(inspect.Signature):
 
     def is_more_generic_than(self, b: TypeSignature) -> bool:
         """Is this type signature more generic than an other?"""
-        if self == {}:
-            for key in self:
-                key1 = self[key]
-                key2 = b.get(key, None)
-                if key2 is None:
-                    return key2 == {}
-
-                if key2.is_more_generic_than(key1):
+        ours = [param.annotation for param in self._parameters.values()]
+        theirs = [param.annotation for param in b._parameters.values()]
+        if len(ours) != len(theirs):
+            return False
+        more_generic = False
+        for our, their in zip(ours, theirs):
+            if our is their:
+                continue
+            if our is not inspect.Parameter.empty:
+                try:
+                    if their is inspect.Parameter.empty or not issubclass(their, our):
+                        return False
+                except TypeError:
                     return False
-        return True
+            more_generic = True
+        return more_generic
 
     def __lt__(self, other: TypeSignature) -> bool:
         return self.is_more_generic_than(other)
-- 
2.43.0


From c292217bce142ea0fe3a9a2483c932a774d55eb7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 231/264] fix: overload would call the function registered
 first instead of the most specific one

---
 satella/coding/overloading.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index 39b6a70..ba3c4e9 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -157,12 +157,11 @@ class overload:
 
         :raises TypeError: no type signature given
         """
-        matching = []
+        most_specific = None
         for sign, fun in self.type_signatures_to_functions.items():
             if sign.matches(*args, **kwargs):
-                matching.append((sign, fun))
-        matching.sort()     # This sorting should result in most precise class at the end of the list
-        if not matching:
+                if most_specific is None or most_specific[0].is_more_generic_than(sign):
+                    most_specific = sign, fun
+        if most_specific is None:
             raise TypeError('No matching entries!')
-        else:
-            return matching[-1][1](*args, **kwargs)  # call the most specific function you could find
+        return most_specific[1](*args, **kwargs)  # call the most specific function you could find
-- 
2.43.0


From ee62d8fad6ba632ee862093e5f036f73928de077 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 232/264] fix: CopyDocsFrom would only copy the docs of a
 single method

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From b5dffff5b3aaaceea6cb750df44a33fd51882ef0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 233/264] fix: wrap_property would make a settable property of
 one without a setter

---
 satella/coding/metaclasses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 585909b..1bfb6b4 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -176,7 +176,10 @@ def wrap_property(getter: tp.Callable[[GetterDefinition], GetterDefinition] = la
     """
 
     def inner(prop):
-        return wraps(prop)(property(getter(prop.fget), setter(prop.fset), deleter(prop.fdel)))
+        return wraps(prop)(property(
+            None if prop.fget is None else getter(prop.fget),
+            None if prop.fset is None else setter(prop.fset),
+            None if prop.fdel is None else deleter(prop.fdel)))
 
     return inner
 
-- 
2.43.0


From ad7b03b0644e58b1dd4c43d3329a65efa05a3f6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:27:21 +0000
Subject: [PATCH 234/264] fix: an argument without an annotation is as generic
 as an object

---
 satella/coding/overloading.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index ba3c4e9..96beef5 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -66,20 +66,19 @@ class TypeSignature(inspect.Signature):
 
     def is_more_generic_than(self, b: TypeSignature) -> bool:
         """Is this type signature more generic than an other?"""
-        ours = [param.annotation for param in self._parameters.values()]
-        theirs = [param.annotation for param in b._parameters.values()]
+        ours, theirs = ([object if param.annotation is inspect.Parameter.empty else param.annotation
+                         for param in sign._parameters.values()] for sign in (self, b))
         if len(ours) != len(theirs):
             return False
         more_generic = False
         for our, their in zip(ours, theirs):
             if our is their:
                 continue
-            if our is not inspect.Parameter.empty:
-                try:
-                    if their is inspect.Parameter.empty or not issubclass(their, our):
-                        return False
-                except TypeError:
+            try:
+                if not issubclass(their, our):
                     return False
+            except TypeError:
+                return False
             more_generic = True
         return more_generic
 
-- 
2.43.0


From 00677f0f66dd714659a72a84e72253e1d90a61aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 235/264] fix: a tainting environment refused to be entered
 would appear enabled

---
 satella/debug/tainting/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/environment.py b/satella/debug/tainting/environment.py
index fb4eb32..7d849c6 100644
--- a/satella/debug/tainting/environment.py
+++ b/satella/debug/tainting/environment.py
@@ -59,10 +59,10 @@ class TaintingEnvironment:
 
         :raises RuntimeError: there is already a tainting session in progress
         """
-        self.enabled = True
         global local
         if hasattr(local, 'satella_tainting'):
             raise RuntimeError('Other tainting session in progress')
+        self.enabled = True
         local.satella_tainting = self
         return self
 
-- 
2.43.0


From badef6c5b5d2cc57aa09eefe180b65f529b5f546 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 236/264] fix: repr() of a tainted object would raise TypeError

---
 satella/debug/tainting/tainteds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..373f8af 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -79,8 +79,7 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
-    def __repr__(self) -> str:
+    def __repr__(self) -> str:  # it must be a str otherwise Python will complain
         return '%s TAINTED' % str(self.__v)
 
     @might_accept_tainted(taint_result=True)
-- 
2.43.0


From 9e6545c22de6560325f15f7cbe2c2584d70f8124 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 237/264] fix: attributes of tainted objects could be neither
 set nor deleted

---
 satella/debug/tainting/tainteds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 373f8af..5d2480f 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -63,7 +63,10 @@ class TaintedObject(tp.Generic[T]):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
+
+    def __delattr__(self, key: str) -> None:
+        delattr(self.__v, key)
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
-- 
2.43.0


From 423e9c0430963ea77c42e10db7df7f30ec637ea0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 238/264] fix: tainting a class would raise TypeError

---
 satella/debug/tainting/tainteds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5d2480f..b8b60c0 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -56,8 +56,8 @@ class TaintedObject(tp.Generic[T]):
                     dict_to_transform = v.__dict__
                 for key in dict_to_transform:
                     dict_to_transform[key] = taint(dict_to_transform[key])
-            except AttributeError:
-                pass  # must have been a primitive type
+            except (AttributeError, TypeError):
+                pass  # must have been a primitive type, or something of a read-only __dict__ such as a class
 
     def __setattr__(self, key: str, value: tp.Any):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
-- 
2.43.0


From 3dcdad96e50b30f2c60330aef55c9ce6085a0418 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 239/264] fix: in-place operations on a tainted variable would
 change other variables of the same value

---
 satella/debug/tainting/tainteds.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index b8b60c0..7445579 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -137,8 +137,9 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __iadd__(self, other) -> TaintedObject:
-        self.__v += other
-        return self
+        v = self.__v
+        v += other
+        return self if v is self.__v else taint(v)
 
     @might_accept_tainted(taint_result=True)
     def __sub__(self, other) -> TaintedObject:
@@ -146,8 +147,9 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __isub__(self, other) -> TaintedObject:
-        self.__v -= other
-        return self
+        v = self.__v
+        v -= other
+        return self if v is self.__v else taint(v)
 
     @might_accept_tainted(taint_result=True)
     def __mul__(self, other) -> TaintedObject:
@@ -155,8 +157,9 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __imul__(self, other) -> TaintedObject:
-        self.__v *= other
-        return self
+        v = self.__v
+        v *= other
+        return self if v is self.__v else taint(v)
 
     def __dir__(self) -> tp.Iterable[str]:
         return dir(self.__v)
-- 
2.43.0


From b1f03982cc8d6b120e347e2cbb0c138679fe7f67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 240/264] fix: most of the operators would not accept tainted
 values

---
 satella/debug/tainting/tainteds.py | 96 ++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 7445579..d04c2f8 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -161,6 +161,102 @@ class TaintedObject(tp.Generic[T]):
         v *= other
         return self if v is self.__v else taint(v)
 
+    @might_accept_tainted(taint_result=True)
+    def __rsub__(self, other) -> TaintedObject:
+        return other - self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __rmul__(self, other) -> TaintedObject:
+        return other * self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __truediv__(self, other) -> TaintedObject:
+        return self.__v / other
+
+    @might_accept_tainted(taint_result=True)
+    def __rtruediv__(self, other) -> TaintedObject:
+        return other / self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __floordiv__(self, other) -> TaintedObject:
+        return self.__v // other
+
+    @might_accept_tainted(taint_result=True)
+    def __rfloordiv__(self, other) -> TaintedObject:
+        return other // self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __mod__(self, other) -> TaintedObject:
+        return self.__v % other
+
+    @might_accept_tainted(taint_result=True)
+    def __rmod__(self, other) -> TaintedObject:
+        return other % self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __pow__(self, other) -> TaintedObject:
+        return self.__v ** other
+
+    @might_accept_tainted(taint_result=True)
+    def __rpow__(self, other) -> TaintedObject:
+        return other ** self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __and__(self, other) -> TaintedObject:
+        return self.__v & other
+
+    @might_accept_tainted(taint_result=True)
+    def __rand__(self, other) -> TaintedObject:
+        return other & self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __or__(self, other) -> TaintedObject:
+        return self.__v | other
+
+    @might_accept_tainted(taint_result=True)
+    def __ror__(self, other) -> TaintedObject:
+        return other | self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __xor__(self, other) -> TaintedObject:
+        return self.__v ^ other
+
+    @might_accept_tainted(taint_result=True)
+    def __rxor__(self, other) -> TaintedObject:
+        return other ^ self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __lshift__(self, other) -> TaintedObject:
+        return self.__v << other
+
+    @might_accept_tainted(taint_result=True)
+    def __rlshift__(self, other) -> TaintedObject:
+        return other << self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __rshift__(self, other) -> TaintedObject:
+        return self.__v >> other
+
+    @might_accept_tainted(taint_result=True)
+    def __rrshift__(self, other) -> TaintedObject:
+        return other >> self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __neg__(self) -> TaintedObject:
+        return -self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __pos__(self) -> TaintedObject:
+        return +self.__v
+
+    @might_accept_tainted(taint_result=True)
+    def __abs__(self) -> TaintedObject:
+        return abs(self.__v)
+
+    @might_accept_tainted(taint_result=True)
+    def __invert__(self) -> TaintedObject:
+        return ~self.__v
+
     def __dir__(self) -> tp.Iterable[str]:
         return dir(self.__v)
 
-- 
2.43.0


From e29e9d137b10d182ccc6ecb370b341a68eadbf83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 241/264] fix: result of comparing tainted values with != was
 not tainted

---
 satella/debug/tainting/tainteds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index d04c2f8..4fefc3e 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -111,6 +111,10 @@ class TaintedObject(tp.Generic[T]):
     def __eq__(self, other) -> bool:
         return self.__v == other
 
+    @might_accept_tainted(taint_result=True)
+    def __ne__(self, other) -> bool:
+        return self.__v != other
+
     @might_accept_tainted(taint_result=True)
     def __gt__(self, other) -> bool:
         return self.__v > other
-- 
2.43.0


From 3f714c62248a93b340b22c82b04f7fffbf8890dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 242/264] fix: tainted integers could not be used as indices

---
 satella/debug/tainting/tainteds.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 4fefc3e..81bad9d 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+import operator
 import typing as tp
 
 from satella.coding.typing import T
@@ -98,6 +99,9 @@ class TaintedObject(tp.Generic[T]):
     def __int__(self) -> int:
         return int(self.__v)
 
+    def __index__(self) -> int:  # This has to return an int otherwise Python will break
+        return operator.index(self.__v)
+
     def __float__(self) -> float:
         return float(self.__v)
 
@@ -268,13 +272,13 @@ class TaintedObject(tp.Generic[T]):
         return hash(self.__v)
 
     def __getitem__(self, item: int) -> TaintedObject[T]:
-        return taint(self.__v[item])
+        return taint(self.__v[access_tainted(item)])
 
     def __setitem__(self, key, value: T) -> None:
-        self.__v[key] = taint(value)
+        self.__v[access_tainted(key)] = taint(value)
 
     def __delitem__(self, key: str) -> None:
-        del self.__v[key]
+        del self.__v[access_tainted(key)]
 
 
 def access_tainted(v: tp.Union[T, TaintedObject[T]]) -> T:
-- 
2.43.0


From 3983fd9eda39d399f910615a3d067f351fc3a202 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 243/264] fix: a tainted string would not be found to contain a
 substring

---
 satella/debug/tainting/tainteds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 81bad9d..f685b30 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -93,6 +93,9 @@ class TaintedObject(tp.Generic[T]):
     def __len__(self) -> int:  # This has to return an int otherwise Python will break
         return len(self.__v)
 
+    def __contains__(self, item) -> bool:  # This has to return a bool otherwise Python will break
+        return access_tainted(item) in self.__v
+
     def __bool__(self) -> bool:  # This has to return a bool otherwise Python will break
         return bool(self.__v)
 
-- 
2.43.0


From b7c3e9280efe6a0546353d1f55729ddc264f9d6c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 244/264] fix: LocalRelativeValue would fire when there was
 more memory left than given, instead of less

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From 814639bb43fce73ab42320da9badd63831dfe13c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 245/264] fix: get_size would skip elements of containers
 having attributes, and exhaust iterators

---
 satella/instrumentation/memory/get_object_size.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/memory/get_object_size.py b/satella/instrumentation/memory/get_object_size.py
index 67c604b..5112dd8 100644
--- a/satella/instrumentation/memory/get_object_size.py
+++ b/satella/instrumentation/memory/get_object_size.py
@@ -26,8 +26,8 @@ def get_size(obj, seen=None) -> int:
     if isinstance(obj, dict):
         size += sum(get_size(v, seen) for v in obj.values())
         size += sum(get_size(k, seen) for k in obj.keys())
-    elif hasattr(obj, '__dict__'):
-        size += get_size(obj.__dict__, seen)
-    elif hasattr(obj, '__iter__') and not isinstance(obj, (str, bytes, bytearray)):
+    elif hasattr(obj, '__iter__') and not hasattr(obj, '__next__') and not isinstance(obj, (str, bytes, bytearray)):
         size += sum(get_size(i, seen) for i in obj)
+    if hasattr(obj, '__dict__'):
+        size += get_size(obj.__dict__, seen)
     return size
-- 
2.43.0


From 5ca025b27e911de2fc7df78ee24d5af441d8ae6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 246/264] fix: dump_memory_on would be aborted by an object
 which could not be represented

---
 satella/instrumentation/memory/dump_frames_on.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/dump_frames_on.py b/satella/instrumentation/memory/dump_frames_on.py
index 965f93e..0baf4a7 100644
--- a/satella/instrumentation/memory/dump_frames_on.py
+++ b/satella/instrumentation/memory/dump_frames_on.py
@@ -31,7 +31,11 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         else:
             top_scores[typ] = size
             instances[typ] = 1
-        output.write('object %s type %s size %s bytes\n' % (repr(obj), typ, size))
+        try:
+            description = repr(obj)
+        except Exception as e:
+            description = '<repr() raised %s>' % (type(e).__name__,)
+        output.write('object %s type %s size %s bytes\n' % (description, typ, size))
 
     output.write('----------------------------------\n')
     output.write('Memory usage scores: \n')
-- 
2.43.0


From 0d57e977fe18bf48841edeb0e48a9f8d5a3da546 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 247/264] fix: get_size would try to iterate over classes of
 iterables

---
 satella/instrumentation/memory/get_object_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/get_object_size.py b/satella/instrumentation/memory/get_object_size.py
index 5112dd8..ed981bc 100644
--- a/satella/instrumentation/memory/get_object_size.py
+++ b/satella/instrumentation/memory/get_object_size.py
@@ -26,7 +26,7 @@ def get_size(obj, seen=None) -> int:
     if isinstance(obj, dict):
         size += sum(get_size(v, seen) for v in obj.values())
         size += sum(get_size(k, seen) for k in obj.keys())
-    elif hasattr(obj, '__iter__') and not hasattr(obj, '__next__') and not isinstance(obj, (str, bytes, bytearray)):
+    elif hasattr(type(obj), '__iter__') and not hasattr(type(obj), '__next__') and not isinstance(obj, (str, bytes, bytearray)):
         size += sum(get_size(i, seen) for i in obj)
     if hasattr(obj, '__dict__'):
         size += get_size(obj.__dict__, seen)
-- 
2.43.0


From 3ccc61db3bd760a1845df30e99dd42d3f71c46a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 248/264] fix: CPUTimeAwareIntervalTerminableThread would not
 accept a time string without max_sooner

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From a41374d27864d387c2fd3a6cdc8384448e14ac94 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 249/264] fix: threads asking for the CPU profile at once would
 start several threads building it

---
 satella/instrumentation/cpu_time/collector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..38fccbe 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import collections
 import multiprocessing
 import os
+import threading
 import time
 import typing as tp
 
@@ -33,6 +34,7 @@ class _CPUProfileBuilderThread(SingleStartThread):
     :param refresh_each: time of seconds to sleep between rebuilding of profiles, or a time string.
     """
     thread = None
+    instance_lock = threading.Lock()
 
     def __init__(self, window_seconds: tp.Union[str, int] = DEFAULT_WINDOW_SECONDS,
                  refresh_each: tp.Union[str, int] = DEFAULT_REFRESH_EACH,
@@ -51,10 +53,11 @@ class _CPUProfileBuilderThread(SingleStartThread):
     @staticmethod
     def get_instance():
         """Access instances of this thread in this way ONLY!"""
-        if _CPUProfileBuilderThread.thread is None:
-            _CPUProfileBuilderThread.thread = _CPUProfileBuilderThread()
-            _CPUProfileBuilderThread.thread.start()
-        return _CPUProfileBuilderThread.thread
+        with _CPUProfileBuilderThread.instance_lock:
+            if _CPUProfileBuilderThread.thread is None:
+                _CPUProfileBuilderThread.thread = _CPUProfileBuilderThread()
+                _CPUProfileBuilderThread.thread.start()
+            return _CPUProfileBuilderThread.thread
 
     def save_load(self, times: pCPUtimes) -> None:
         while len(self.own_load_average) > 3 and \
-- 
2.43.0


From f119188d32bc61ae46e6a91212e40d4557ef1dc7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 250/264] fix: requesting a percentile of CPU usage as the
 profile is being built would make reading it raise IndexError

---
 satella/instrumentation/cpu_time/collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index 38fccbe..4dc139c 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -45,7 +45,7 @@ class _CPUProfileBuilderThread(SingleStartThread):
         self.data = []
         self.process = psutil.Process(os.getpid())
         self.percentiles_requested = list(percentiles_requested)
-        self.percentile_values = []
+        self.percentile_values = {}
         self.percentiles_regenerated = False
         self.started = False
         self.own_load_average = collections.deque()  # typing: tuple[float, pCPUtimes]
@@ -93,8 +93,9 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def percentile(self, percent: float) -> float:
         if not self.data:
             return 0
-        if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
+        value = self.percentile_values.get(percent)
+        if value is not None and self.percentiles_regenerated:
+            return value
         else:
             return percentile(self.data, percent)
 
@@ -108,10 +109,10 @@ class _CPUProfileBuilderThread(SingleStartThread):
         for _ in range(int(self.window_size)):
             time.sleep(1)
             data.append(calculate_occupancy_factor())
-        percentiles = []
+        percentiles = {}
         data.sort()
         for percent in self.percentiles_requested:
-            percentiles.append(percentile(data, percent))
+            percentiles[percent] = percentile(data, percent)
         self.percentile_values = percentiles
         self.percentiles_regenerated = True
         self.data = data
-- 
2.43.0


From ff98734a483e2105f141e1cdf5cc0c32e8a2a3bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 251/264] fix: trace_future would not attach the exception to
 the span

---
 satella/opentracing/trace.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..8152af8 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,5 +1,4 @@
 import copy
-import sys
 import typing as tp
 import warnings
 from concurrent.futures import Future
@@ -86,8 +85,7 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         exc = fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
+            Span._on_error(span, type(exc), exc, exc.__traceback__)
         span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From 44514c116bbaa3711ae658b99580fee13cfe57db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 252/264] fix: the span of a future that got cancelled would
 never be finished

---
 satella/opentracing/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 8152af8..65bec34 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -82,7 +82,7 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
+        exc = None if fut.cancelled() else fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
             Span._on_error(span, type(exc), exc, exc.__traceback__)
-- 
2.43.0


From 47f70fc2031effd7609507ce0bcdeaa50ba87e2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 253/264] fix: trace_exception would raise AttributeError if
 the traceback was not given

---
 satella/opentracing/exceptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/opentracing/exceptions.py b/satella/opentracing/exceptions.py
index 89eed5c..9699179 100644
--- a/satella/opentracing/exceptions.py
+++ b/satella/opentracing/exceptions.py
@@ -44,7 +44,10 @@ def trace_exception(span: tp.Optional[Span], exc_type: tp.Optional[ExceptionClas
         if exc_type is None:
             return
 
-    tb = Traceback(exc_tb.tb_frame).pretty_format()
+    if exc_tb is None:
+        exc_tb = sys.exc_info()[2] if exc_val is None else exc_val.__traceback__
+
+    tb = '' if exc_tb is None else Traceback(exc_tb.tb_frame).pretty_format()
     if len(tb) > max_tb_length:
         tb = tb[:max_tb_length]
 
-- 
2.43.0


From 9871580b9c76765fd731a698f8927993d2b5a5ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 254/264] fix: CallNoOftenThan would not make the first call if
 the computer was started less than the interval ago

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 8a9320d..c893971 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -205,7 +205,7 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = float('-inf')  # type: float
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-- 
2.43.0


From 13cbcef4f86a064798f1dd3e42f68382cea81313 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 255/264] fix: a copy of a time-based heap would be empty

---
 satella/coding/structures/heaps/time.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index b4591fe..2db14b6 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -54,6 +55,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -194,6 +205,16 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
-- 
2.43.0


From 162cb9947fe4974d0b4360b4aa201e32bd756553 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 256/264] fix: push_many and filter_map of a time-based set
 heap would leave it not knowing what it contains

---
 satella/coding/structures/heaps/time.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 2db14b6..63235bd 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -246,6 +246,14 @@ class TimeBasedSetHeap(Heap):
                 return obj
         raise ValueError('Element not found!')
 
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def filter_map(self, filter_fun=None, map_fun=None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
+
     def push(self, item: tp.Tuple[Number, T]) -> None:
         if item[1] in self.item_to_timestamp:
             self.pop_item(item[1])
-- 
2.43.0


From 34fc92b0234c0c65486aafd019a8d7ef579f26c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 257/264] fix: pushing two entries of the same timestamp on a
 time-based heap would need their items to be comparable

---
 satella/coding/structures/heaps/time.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 63235bd..8e1d027 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -55,6 +55,12 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def push(self, item: tp.Tuple[Number, T]) -> None:
+        super().push(_Entry(item))
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        super().push_many(map(_Entry, items))
+
     def __copy__(self) -> 'TimeBasedHeap':
         heap = self.__class__(self.default_clock_source)
         heap.push_many(self.data)
@@ -258,7 +264,7 @@ class TimeBasedSetHeap(Heap):
         if item[1] in self.item_to_timestamp:
             self.pop_item(item[1])
 
-        super().push(item)
+        super().push(_Entry(item))
         self.item_to_timestamp[item[1]] = item[0]
 
     def pop(self) -> tp.Tuple[Number, T]:
-- 
2.43.0


From aa508f9cc68e7083053b13ba7cebd1dae7ab8259 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 258/264] fix: concurrent.futures.wait() and as_completed()
 would wait forever for a wrapping future which was cancelled

---
 satella/coding/concurrent/futures/futures.py | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index feceb4a..4c826a0 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -201,7 +201,7 @@ class WrappingFuture(Future):
     @property
     def _state(self):
         source_state = self.source_future._state
-        if source_state == FINISHED:
+        if source_state in (FINISHED, CANCELLED, CANCELLED_AND_NOTIFIED):
             return self._old_state
         else:
             return source_state
@@ -215,17 +215,28 @@ class WrappingFuture(Future):
 
     def _on_future_completed(self, future: PythonFuture):
         if future.cancelled():
-            with self._condition:
-                self._state = CANCELLED
-                self._condition.notify_all()
-            self._invoke_callbacks()
+            self._on_cancelled()
         elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
+    def _on_cancelled(self):
+        with self._condition:
+            if self._old_state == CANCELLED_AND_NOTIFIED:
+                return
+            # nobody would tell those waiting for this future about it later
+            self._state = CANCELLED_AND_NOTIFIED
+            for waiter in self._waiters:
+                waiter.add_cancelled(self)
+            self._condition.notify_all()
+        self._invoke_callbacks()
+
     def cancel(self) -> bool:
-        return self.source_future.cancel()
+        if not self.source_future.cancel():
+            return False
+        self._on_cancelled()
+        return True
 
 
 def wrap_if(fut: tp.Union[PythonFuture, Future]) -> Future:
-- 
2.43.0


From 32f4304792c0caf943ec5f2d0f34e48a6a1fb6ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 259/264] fix: CacheDict would not understand intervals in
 hours, minutes, days and weeks written in full

---
 .../coding/structures/dictionaries/cache_dict.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 2def751..e81b9d9 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -40,10 +40,17 @@ def _parse_time_string(s: tp.Union[int, float, str]) -> float:
         return s
 
     for modifier, multiple in _TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
-
-    return float(s)
+        number, found, rest = s.partition(modifier)
+        try:
+            number = float(number)
+        except ValueError:      # it is a letter of the name of another unit
+            continue
+        if not found:
+            return number
+        if not rest or rest.isalpha():
+            return number * multiple
+
+    raise ValueError('Invalid time string: %s' % (s,))
 
 
 class CacheDict(tp.Mapping[K, V]):
-- 
2.43.0


From 9d55c743ab3b4a94e1cd0d462d300d789cb76244 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 260/264] fix: build_structure() would fail on a structure
 containing a named tuple

---
 satella/coding/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 1f05c70..7b82175 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -278,7 +278,7 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 else:
                     elem = build_structure(elem, argument, None, True)
                 new_seq.append(elem)
-            f = struct.__class__(new_seq)
+            f = struct._make(new_seq) if hasattr(struct, '_make') else struct.__class__(new_seq)
         elif isinstance(struct, HashableWrapper):
             obj = getattr(struct, '_Proxy__obj')
             f = build_structure(obj, argument, None, True)
-- 
2.43.0


From 8a21123139e2c360c84fcf482f4a75f4ad2fd476 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 261/264] fix: chain_callables() would not call methods which
 take nothing, call the second callable twice if it failed in a certain way,
 and fail with an IndexError on an empty TypeError

---
 satella/coding/misc.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 552513f..7e4b56d 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -153,6 +153,16 @@ def update_if_not_none(dictionary: tp.Dict, key: tp.Hashable, value) -> tp.Dict:
     return update_key_if_none(dictionary, key, value)
 
 
+def _can_be_called(function: tp.Callable, *args) -> bool:
+    try:
+        signature(function).bind(*args)
+    except TypeError:
+        return False
+    except ValueError:      # this one has no signature
+        return True
+    return True
+
+
 def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callable:
     """
     Link two callables together. callable2, if it takes an argument, will receive
@@ -165,14 +175,9 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
 
     def inner(*args, **kwargs):
         res = callable1(*args, **kwargs)
-        try:
-            res = callable2(res)
-        except TypeError as e:
-            if 'positional arguments but' in e.args[0] and 'was given' in e.args[0] and 'takes' in e.args[0]:
-                res = callable2()
-            else:
-                raise
-        return res
+        if not _can_be_called(callable2, res) and _can_be_called(callable2):
+            return callable2()
+        return callable2(res)
 
     return inner
 
-- 
2.43.0


From 782b4f38ef1c557268aaa01b0f7d98808f0cd0fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 262/264] fix: an entry of a SyncableDroppable would be put in
 the database twice if storing one of the next ones failed

---
 satella/coding/structures/syncable_droppable.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index ba457aa..8c67a4f 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -154,9 +154,16 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Make sure that everything's that in memory in also stored in the DB.
         """
-        for key, value in self.data_in_memory:
-            self.db_storage.put(key, value)
-        self.data_in_memory = []
+        self._move_to_db(len(self.data_in_memory))
+
+    def _move_to_db(self, amount: int) -> None:
+        moved = 0
+        try:
+            for key, value in self.data_in_memory[:amount]:
+                self.db_storage.put(key, value)
+                moved += 1
+        finally:    # what has been put is not in the memory anymore, even if the next one has failed
+            self.data_in_memory = self.data_in_memory[moved:]
 
     def cleanup(self) -> None:
         """
@@ -262,9 +269,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         for index, row in enumerate(self.data_in_memory):
             ts, value = row
             if ts >= cutoff_point:
-                for ts, value in self.data_in_memory[:index]:
-                    self.db_storage.put(ts, value)
-                del self.data_in_memory[:index]
+                self._move_to_db(index)
                 break
         else:
             self.sync_to_db()
-- 
2.43.0


From d09ab2672388de103897459f55505bae568558f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 263/264] fix: a BinaryParser given a negative count would
 leave its window, and read what is before it

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index 36c5597..6c362aa 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -67,7 +67,7 @@ class BinaryParser:
         :param n: amount of bytes to consume
         :raises NotEnoughBytes: not enough bytes remain in the stream!
         """
-        if self.length + self.init_ofs < self.pointer + n:
+        if not self.init_ofs <= self.pointer + n <= self.length + self.init_ofs:
             raise NotEnoughBytes('Not enough bytes')
 
     def get_parser(self, length: int) -> 'BinaryParser':
-- 
2.43.0


From e0e44426b0d39233217f36180e8eb5ab3c8a2d08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 264/264] fix: measure(include_exceptions=False) would measure
 calls of functions and generators that raised an exception that is not an
 Exception

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 7d7870e..005d935 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -83,7 +83,7 @@ class MeasurableMixin:
                     excepted = None
                     try:
                         return fun(*args, **kwargs)
-                    except Exception as e:
+                    except BaseException as e:
                         excepted = e
                     finally:
                         value_taken = self.value_getter() - start_value
@@ -101,7 +101,7 @@ class MeasurableMixin:
                     excepted = None
                     try:
                         return (yield from fun(*args, **kwargs))
-                    except Exception as e:
+                    except BaseException as e:
                         excepted = e
                     finally:
                         value_taken = value_getter() - start_value
-- 
2.43.0

