From 69f4671b9243d54c89ad0dd7530aa3257a71fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 001/191] fix: SetHeap keeps its no-duplicates invariant in the
 constructor, pop_item() and filter_map()

---
 satella/coding/structures/heaps/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..1ca0ff2 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,8 +153,8 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
-        self.set = set(self.data)
+        self.set = set(from_list) if from_list is not None else set()
+        super().__init__(from_list=list(self.set))
 
     def push(self, item: T):
         if item not in self.set:
@@ -166,6 +166,11 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def pop_item(self, item: T) -> T:
+        item = super().pop_item(item)  # raises: ValueError
+        self.set.remove(item)
+        return item
+
     def __contains__(self, item: T) -> bool:
         return item in self.set
 
@@ -173,3 +178,6 @@ class SetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[T], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.set = set(self.data)
+        if len(self.set) != len(self.data):     # map_fun made some elements equal
+            self.data = list(self.set)
+            heapq.heapify(self.data)
-- 
2.43.0


From a1102bb7398386bae0d0cba7bbe222847d7714b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 002/191] fix: TimeBasedHeap.get_timestamp compares items, not
 their second elements

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 23fe3b92b8f5b7e722da18d75a091bfc23efa928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 003/191] fix: TimeBasedSetHeap.remove()/filter_map() forget
 the timestamps of removed items

---
 satella/coding/structures/heaps/time.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..7a01afa 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -4,7 +4,7 @@ import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures.heaps.base import Heap
-from satella.coding.typing import T, Number, NoArgCallable
+from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
 class TimeBasedHeap(Heap):
@@ -264,6 +264,14 @@ class TimeBasedSetHeap(Heap):
                 return
             yield self.pop()
 
+    def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
+                   map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        entries = self.data
+        self.data, self.item_to_timestamp = [], {}
+        for entry in entries:
+            self.push(entry)
+
     def remove(self, item: T) -> None:
         """
         Remove all things equal to item
-- 
2.43.0


From 4b7beba25cabae0305488a7f93978f19f8c2c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:01 +0000
Subject: [PATCH 004/191] fix: SortedList (and Ranking) can be built of
 unorderable items whose keys are equal

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..ed5e151 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From 3912217fdb87c3d1c760798bb712a38f4886e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:01 +0000
Subject: [PATCH 005/191] fix: Ranking.remove() forgets the position of the
 removed element

---
 satella/coding/structures/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..f63c816 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,6 +52,7 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        del self.element_to_position[id(self.ranking[index])]
         self.ranking.remove(item)
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
-- 
2.43.0


From af48c3b7892e3d267ee3d42ae109830814641dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 006/191] fix: CacheDict reads the time from time_getter when
 serving entries

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From 7918a4f9014ec398c348b7e25e37a6ea7b6fe014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 007/191] fix: CacheDict.feed() honours a timestamp of 0 and
 supersedes a cached miss

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..e1a94c4 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From 5cc950a3542a5f4bf4f3a731708d4ae2b09fce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 008/191] fix: CacheDict.has_info_about() expires cached misses
 after cache_failures_interval

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index e1a94c4..13c70fa 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -111,7 +111,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
-- 
2.43.0


From d9ce18811e91a352090e69f50a5b1ecc8faf162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 009/191] fix: invalidating a CacheDict key forgets its cached
 miss

---
 satella/coding/structures/dictionaries/cache_dict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 13c70fa..c06dfa3 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -235,10 +235,11 @@ class CacheDict(tp.Mapping[K, V]):
             return self.data[key]
 
     def __delitem__(self, key: K) -> None:
-        del self.data[key]
-        del self.timestamp_data[key]
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
+        try:
+            del self.data[key]
+        finally:
+            self.timestamp_data.pop(key, None)
+            self.cache_missed.discard(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From f4a7a8641d45e3c7f359e11538106bfbd27eacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 010/191] fix: LRUCacheDict does not evict other entries when
 replacing the value of a present key

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index c06dfa3..c90276e 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -317,6 +317,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From 4c58631644b964c6c9d8eb9947d1077e3ce3ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 011/191] fix: LRUCacheDict.feed() of a present key counts as
 its use

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index c90276e..fcda6c7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -311,7 +311,7 @@ class LRUCacheDict(CacheDict[K, V]):
         if key not in self.data:
             self.make_room()
         super().feed(key, value, timestamp)
-        self.lru.add(key)
+        self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From 9ffe174069fe02585006d1eadf08815933557f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 012/191] fix: ExpiringEntryDict forgets the deadline of an
 entry found expired on read

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..c588bcc 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -215,7 +215,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
-- 
2.43.0


From 943f1bbb03b5232b0988f5c427e2b8fff021ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 013/191] fix: deleting a missing key of ExpiringEntryDict
 raises KeyError

---
 satella/coding/structures/dictionaries/expiring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index c588bcc..12713a3 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -221,6 +221,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         return self.data[item]
 
     @Monitor.synchronized
+    @rethrow_as(ValueError, KeyError)
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From fecea07ed43dff45203d640ed36f6dd447d5d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 014/191] fix: SelfCleaningDefaultDict iterates over its keys

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 12713a3..1dabac0 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -99,7 +99,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
 
     def __delitem__(self, key: K) -> None:
         if key in self.data:
-- 
2.43.0


From 96e6d2a9820f55d27d7ad2631e2d4352287c977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 015/191] fix: TwoWayDictionary.done() and its use as a context
 manager

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From d09b6469dc0abaa17ada56734327ddfc6476a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:08 +0000
Subject: [PATCH 016/191] fix: checking for a key in a KeyAwareDefaultDict does
 not create it

---
 satella/coding/structures/dictionaries/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..b8c11b7 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -98,6 +98,9 @@ class KeyAwareDefaultDict(tp.MutableMapping[K, V]):
         self.dict = dict(*args, **kwargs)
         self.factory_function = factory_function
 
+    def __contains__(self, item: K) -> bool:
+        return item in self.dict
+
     def __getitem__(self, item: K) -> V:
         if item in self.dict:
             return self.dict[item]
-- 
2.43.0


From 86c64fb90443268d67baa307067e4c0a34535526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 017/191] fix: the last element of a SparseMatrix can be
 deleted

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..d48bb21 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -303,11 +303,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From 14fba314fa6be610c0f13c67e43a2275a51a4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 018/191] fix: a SparseMatrix is true when it has elements

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index d48bb21..34df66d 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows != 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From 3c35bacd3daff4e720c4436a877d9e265203f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 019/191] fix: SparseMatrix.max()/min() with an undefined
 element at [0, 0]

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 34df66d..9552b56 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -64,7 +64,7 @@ class SparseMatrix(tp.Generic[T]):
             for value in row:
                 if value is None:
                     continue
-                if value > item:
+                if item is None or value > item:
                     item = value
         return item
 
@@ -80,7 +80,7 @@ class SparseMatrix(tp.Generic[T]):
                 if value is None:
                     continue
 
-                if value < item:
+                if item is None or value < item:
                     item = value
         return item
 
-- 
2.43.0


From 44fa7368c0da1c014991a4d4147a48eb71acff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 020/191] fix: SparseMatrix.delete_row() of an empty row does
 not add a row

---
 satella/coding/structures/sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 9552b56..f1dc89b 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -228,6 +228,8 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
+        if row_no not in self.rows_dict:  # check so as to avoid adding new entries
+            return
         cols = list(self.rows_dict[row_no].keys())  # Copy it here
         for col_no in cols:
             del self[col_no, row_no]
-- 
2.43.0


From 5df5e581a538116bbca309857f478cbb7bf1c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 021/191] fix: SparseMatrix accepts the documented ... as an
 index

---
 satella/coding/structures/sparse_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index f1dc89b..bd776f3 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -12,6 +12,8 @@ def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
         if not (inst.start is None and inst.stop is None and inst.step is None):
             raise IndexError('Custom slicing is not supported!')
         return Ellipsis
+    elif inst is Ellipsis:
+        return Ellipsis
     elif isinstance(inst, int):
         if isinstance(inst, int):
             if inst < 0:
-- 
2.43.0


From 9c6747fa6c8d3a7ffe52075be73489556d0f73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 022/191] fix: IDAllocator with top_limit of 0 allocates
 nothing

---
 satella/coding/concurrent/id_allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..99032e8 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,7 +71,7 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
-- 
2.43.0


From e6b0dec8a431d6d67d98a1ba45a1ae088bfe8083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 023/191] fix: IDAllocator does not exceed top_limit when
 start_at is given

---
 satella/coding/concurrent/id_allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index 99032e8..8451675 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -76,8 +76,9 @@ class IDAllocator(Monitor):
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        # the pool is kept relative to start_at
+        if x > self.top_limit - self.start_at:
+            x = self.top_limit - self.start_at
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From 4ba3034ab99d3ef780e25afcc53028312470fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 024/191] fix: BinaryParser spans exactly the requested window
 (empty window, offset without length)

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..4fd8ce1 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,7 +40,7 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
+        self.length = len(b_stream) - offset if length is None else length
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
 
-- 
2.43.0


From de23a1b7a1577e9e3adb7cb24f4086afe151aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 025/191] fix: SyncableDroppable.get_archive() serves data that
 is entirely in the DB

---
 satella/coding/structures/syncable_droppable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..fd615d5 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,9 +208,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
+        if self.data_in_memory and self.first_key_in_memory <= start:
             # We'll serve it from memory
             for key, value in self.data_in_memory:
                 if key < start:
-- 
2.43.0


From 93fbb19673a9e172504bc442bc3d33c310302fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 026/191] fix: SyncableDroppable.cleanup_keep_in_db() works
 with nothing in memory

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index fd615d5..7f9afe4 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -275,7 +275,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
         if self.start_entry == self.first_key_in_memory:
-- 
2.43.0


From fa1459d54b93037a81b101ee80dd4e7b2b7de36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 027/191] fix: SyncableDroppable.on_sync_request() yields
 exactly the first not yet synchronized entries

---
 .../coding/structures/syncable_droppable.py   | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 7f9afe4..8b52b01 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -310,9 +310,9 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             self.start_entry = key
 
     def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
+        if self.start_entry is None:
             raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
+        if self.synced_up_to == self.stop_entry:
             raise ValueError('Nothing to synchronize!')
 
     def _on_sync_request_synced_up_none(self, maximum_entries):
@@ -326,25 +326,22 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                     data = itertools.chain(data, self.data_in_memory)
                 else:
                     data = itertools.chain(data, self.data_in_memory[:entries_left])
+            elif maximum_entries != math.inf:
+                data = data[:maximum_entries]
             return data
         finally:
             try_close(iterator)
 
     def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
+        for tpl in itertools.chain(iterator, self.data_in_memory):
+            if len(data) >= maximum_entries:
+                break
+            if tpl[0] > self.synced_up_to:
+                data.append(tpl)
+        return data
 
     def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
+        if self.data_in_memory and self.first_key_in_memory <= self.synced_up_to:
             # Means we have to sync from memory
             if self.synced_up_to is None:
                 v = self.data_in_memory
@@ -358,7 +355,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         else:
             # We have to start off the disk
             data = []
-            iterator = self.db_storage.iterate(self.start_entry)
+            iterator = self.db_storage.iterate(self.synced_up_to)
             try:
                 v = self.__append_item(data, iterator, maximum_entries)
             finally:
-- 
2.43.0


From 2144b3b9640ec087b92ab8dfe5e6d49cb301e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 028/191] fix: parse_time_string() understands plural units,
 eg. '30 mins' or '5 days'

---
 satella/time/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..d5a6b89 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -29,8 +29,10 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    # the unit is given by the first letter, since eg. '30 mins' contains an 's' too
+    found = [(s.index(modifier), multiple) for modifier, multiple in TIME_MODIFIERS if modifier in s]
+    if found:
+        index, multiple = min(found)
+        return float(s[:index]) * multiple
 
     return float(s)
-- 
2.43.0


From c3e9562a914a5dd1e6a18300e13a7bc6cc53a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 029/191] fix: CacheDict understands intervals in plural units,
 eg. '30 mins' or '5 days'

---
 satella/coding/structures/dictionaries/cache_dict.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index fcda6c7..12101de 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -38,9 +38,11 @@ def _parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in _TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    # the unit is given by the first letter, since eg. '30 mins' contains an 's' too
+    found = [(s.index(modifier), multiple) for modifier, multiple in _TIME_MODIFIERS if modifier in s]
+    if found:
+        index, multiple = min(found)
+        return float(s[:index]) * multiple
 
     return float(s)
 
-- 
2.43.0


From 07ad3a4b785f86e2a9b866f82be6e887bc6595a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 030/191] fix: measure.start() after stop() resumes the
 measurement

---
 satella/time/measure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..969073c 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -197,7 +197,6 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is not None:
             self.started_on = self.time_getter_callable() - self.elapsed
             self.stopped_on = None
-        self.started_on = self.time_getter_callable()
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 0c9b76485ffd387fd2abcfbd7bea992d9623272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:45 +0000
Subject: [PATCH 031/191] fix: ExponentialBackoff never waits longer than its
 limit

---
 satella/time/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..5f732e9 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
-- 
2.43.0


From 95db930c36585f64eee9ea50eabfb141bbdc0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:24 +0000
Subject: [PATCH 032/191] fix: CacheDict serves a stale value even if its
 refresh fails at once

---
 satella/coding/structures/dictionaries/cache_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 12101de..597bef0 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -231,8 +231,9 @@ class CacheDict(tp.Mapping[K, V]):
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
         elif now - timestamp > self.stale_interval:
-            self.schedule_a_fetch(key)
-            return self.data[key]
+            value = self.data[key]
+            self.schedule_a_fetch(key)      # this might finish at once, and evict the key
+            return value
         else:
             return self.data[key]
 
-- 
2.43.0


From 846f9dcc3a5cb2386d622a01a83f707023f9b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 033/191] fix: ListWrapperIterator supports negative indices
 and open-ended slices

---
 satella/coding/sequences/iterators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..9e26119 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -566,8 +566,13 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         :raises IndexError: invalid index
         """
         if isinstance(item, int):
-            if len(self.list) < item + 1:
+            if item < 0:
+                self.exhaust()
+            else:
                 self.advance_to_item(item + 1)
+        elif item.stop is None or any(x is not None and x < 0
+                                      for x in (item.start, item.stop, item.step)):
+            self.exhaust()
         else:
             self.advance_to_item(item.stop)
         return self.list[item]
-- 
2.43.0


From e5977f4f8b650480d2c172e4f5e5777e95a3f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 034/191] fix: hint_with_length passes length_factory to
 generators made by a function

---
 satella/coding/iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..c30a952 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -117,7 +117,8 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length,
+                                self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 7a214dc5b8d870ba5352c497fef5f3f68425af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 035/191] fix: is_last() of an empty iterable is empty

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..d07f45f 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From 041283615a567a04110225ddcd6697f8b6d61659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 036/191] fix: skip_first() and stop_after() of iterables that
 are too short

---
 satella/coding/sequences/iterators.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 9e26119..9c183b4 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -459,7 +459,6 @@ def zip_shifted(*args: tp.Union[Iteratable, tp.Tuple[Iteratable, int]]) -> \
 
 
 @for_argument(iter)
-@silence_excs(StopIteration)
 def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
     Skip first n elements from given iterator.
@@ -472,9 +471,7 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        next(iterator)
-    yield from iterator
+    yield from itertools.islice(iterator, n, None)
 
 
 class _ListWrapperIteratorIterator(tp.Iterator[T]):
@@ -610,7 +607,6 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         return self
 
 
-@silence_excs(StopIteration)
 @for_argument(iter)
 def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
@@ -627,8 +623,7 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        yield next(iterator)
+    yield from itertools.islice(iterator, n)
 
 
 @for_argument(iter)
-- 
2.43.0


From aee139e64a8fb89f824f0eeb74a0ae5d0b92f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:31 +0000
Subject: [PATCH 037/191] fix: AlreadySeen can be given both hashable and
 unhashable objects

---
 satella/coding/sequences/iterators.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 9c183b4..066bb7f 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = ('set', 'list')
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()
+        self.list = []  # the elements that cannot be hashed
 
     def is_unique(self, key: K) -> bool:
         """
@@ -232,9 +233,6 @@ class AlreadySeen(tp.Generic[K]):
         :return: whether the element was seen for the first time
         """
         try:
-            hash(key)
-            if self.set is None:
-                self.set = set()
             if key in self.set:
                 return False
             self.set.add(key)
@@ -242,11 +240,9 @@ class AlreadySeen(tp.Generic[K]):
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list:
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
 
 
-- 
2.43.0


From fc09ed0eda7d68b5aab750027272ddf2cf51f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 038/191] fix: merge_list() can merge values that are not
 orderable

---
 satella/coding/transforms/merge_list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..b05923d 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))   # values don't need to be orderable
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -65,11 +66,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From 95df2126bcd02a5047ee9708b3e133050f3e843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:12 +0000
Subject: [PATCH 039/191] fix: merge_series() returns each timestamp once

---
 satella/coding/transforms/merger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..ce2a4be 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -112,5 +112,9 @@ class merge_series:
         while not self.assert_preloaded(ts):
             ts = self.timestamps.pop()  # throws IndexError
 
+        # catching up with ts might have added it, or something earlier, again
+        while self.timestamps and self.timestamps[0] <= ts:
+            self.timestamps.pop()
+
         output = (ts, *(v[1] for v in self.next_preloaded_values))
         return output
-- 
2.43.0


From 380de9b6b49364c7ccc4e4a57d29eafe17663ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 040/191] fix: merge_series() of a series having two points
 before another series starts

---
 satella/coding/transforms/merger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index ce2a4be..d314691 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -39,7 +39,8 @@ class merge_series:
             try:
                 value = next(series)
                 self.super_next_preloaded_values.append(value)
-                self.timestamps.push(value[0])
+                if value[0] > max_ts:   # nothing can be reported earlier than max_ts
+                    self.timestamps.push(value[0])
             except StopIteration:
                 self.super_next_preloaded_values.append(None)
 
-- 
2.43.0


From e5b6842b2bd211fae03cc9772f82417d93b9aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:07 +0000
Subject: [PATCH 041/191] fix: retry() calls call_between_retries only if there
 will be a retry

---
 satella/coding/decorators/retry_dec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..f302336 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -69,7 +69,7 @@ def retry(times: tp.Optional[int] = None,
                     return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
+                    if call_between_retries is not None and i + 1 != times:
                         call_between_retries(e)
                     continue
             else:
-- 
2.43.0


From c1b80d51c53b12ba54910dd4c52cfe2d767990d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:07 +0000
Subject: [PATCH 042/191] fix: retry() does not repeat a successful operation
 if call_on_success fails

---
 satella/coding/decorators/retry_dec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index f302336..81b4bec 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -64,14 +64,14 @@ def retry(times: tp.Optional[int] = None,
             for i in iterator:
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
                     if call_between_retries is not None and i + 1 != times:
                         call_between_retries(e)
                     continue
+                if call_on_success is not None:
+                    call_on_success(i)
+                return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
-- 
2.43.0


From c57a3fc78cd61cd8ac8eac9d2a58ef7d1813ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:07 +0000
Subject: [PATCH 043/191] fix: rethrow_as/silence_excs on a recursive function
 loses the results of outer calls

---
 satella/coding/recast_exceptions.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..13316fd 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import threading
 import typing as tp
 import warnings
 
@@ -233,7 +232,7 @@ class rethrow_as:
         is used as as decorator
     :raises ValueError: you specify both returns and returns_factory
     """
-    __slots__ = 'mapping', 'exception_preprocessor', 'returns', '__exception_remapped', 'returns_factory'
+    __slots__ = 'mapping', 'exception_preprocessor', 'returns', 'returns_factory'
 
     def __init__(self, *pairs: ExceptionList,
                  exception_preprocessor: tp.Optional[tp.Callable[[Exception], str]] = repr,
@@ -259,35 +258,26 @@ class rethrow_as:
         if self.returns is not None and self.returns_factory is not None:
             raise ValueError('You can specify only one of (returns, returns_factory)')
 
-        # this is threading.local because two threads may execute the same function at the
-        # same time, and exceptions from one function would leak to another
-        self.__exception_remapped = threading.local()
-
     def __call__(self, fun: tp.Callable) -> tp.Callable:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+            # This means that the exception was silenced
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
 
         return inner
 
     def __enter__(self):
-        self.__exception_remapped.was_raised = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-                    self.__exception_remapped.was_raised = True
                     if to is None:
                         return True
                     raise to(self.exception_preprocessor(exc_val))
-- 
2.43.0


From d3aab70e7dfb21194869c69ff27d79a96e4d8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:07 +0000
Subject: [PATCH 044/191] fix: log_exceptions format string may use
 conversions, indices and attributes of the fields

---
 satella/coding/recast_exceptions.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 13316fd..31daf23 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -86,15 +86,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
-- 
2.43.0


From 9676ba8ae46f6962c08c4051bc0395415bcf26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:15 +0000
Subject: [PATCH 045/191] fix: transform_result() and transform_arguments()
 accept keyword arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From 9010c10e6289a698bff471fa261650dac30c6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:15 +0000
Subject: [PATCH 046/191] fix: replace_argument_if() replaces only arguments
 matching the predicate

---
 satella/coding/decorators/arguments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 2f47c30..4e520c8 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,8 +153,9 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
+                    if predicate(v):
+                        args_dict[arg_name] = build_structure(structure, v)
+                        altered = True
                 elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
-- 
2.43.0


From e001444868f2a26b7a824f0edb12f744b40f6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:16 +0000
Subject: [PATCH 047/191] fix: build_structure() handles dictionaries of any
 size and strings

---
 satella/coding/predicates.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..03d3929 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -258,14 +258,12 @@ def build_structure(struct: tp.Union[tuple, list, dict],
     else:
         from satella.coding.structures import HashableWrapper
         if isinstance(struct, tp.MutableMapping):
-            new_dict = {}
+            f = {}
             for key, value in struct.items():
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
-                new_dict[key] = value
-                f = new_dict
-                break
-        elif isinstance(struct, tp.Sequence):
+                f[key] = value
+        elif isinstance(struct, tp.Sequence) and not isinstance(struct, (str, bytes)):
             new_seq = []
             for elem in struct:
                 if isinstance(elem, PredicateClass):
-- 
2.43.0


From d167de5187b76aee24f935ad1d0cd29e4f419fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:16 +0000
Subject: [PATCH 048/191] fix: call_with_arguments() without an argument that
 has a default does not shift the later ones

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..b0be0e6 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -363,8 +363,10 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
         if param_name not in arguments:
             if param_kind in (Parameter.VAR_KEYWORD, Parameter.VAR_POSITIONAL):
                 continue
-            elif param.default == Parameter.empty:
+            elif param.default is Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            if param_kind != Parameter.KEYWORD_ONLY:
+                args.append(param.default)  # do not shift the arguments that follow
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From 9ab51ab657ad3d7f82a952711e99c5e1219412fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:16 +0000
Subject: [PATCH 049/191] fix: get_arguments() raises TypeError if there are
 too many arguments

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index b0be0e6..e3575c3 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,7 +269,9 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    return _get_arguments(function, False, *args, **kwargs)
+    bound = signature(function).bind(*args, **kwargs)   # raises TypeError
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 # pylint: disable=too-many-locals
-- 
2.43.0


From d45c8c6e94ff9ea85cebd7dffbb82ee9fdfd7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:16 +0000
Subject: [PATCH 050/191] fix: cache_memoize() tells apart calls with different
 keyword arguments

---
 satella/coding/decorators/decorators.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..b1789f0 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -165,22 +165,23 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
+            key = args, frozenset(kwargs.items())
 
             with Monitor.acquire(fun.memoize_timestamps):
-                if args in fun.memoize_timestamps:
-                    ts = fun.memoize_timestamps[args]
+                if key in fun.memoize_timestamps:
+                    ts = fun.memoize_timestamps[key]
                     if now - ts > cache_duration:
                         with Monitor.release(fun.memoize_timestamps):
                             v = fun(*args, **kwargs)
-                        fun.memoize_timestamps[args] = now
-                        fun.memoize_values[args] = v
+                        fun.memoize_timestamps[key] = now
+                        fun.memoize_values[key] = v
                 else:
                     with Monitor.release(fun.memoize_timestamps):
                         v = fun(*args, **kwargs)
-                    fun.memoize_timestamps[args] = now
-                    fun.memoize_values[args] = v
+                    fun.memoize_timestamps[key] = now
+                    fun.memoize_values[key] = v
 
-                return fun.memoize_values[args]
+                return fun.memoize_values[key]
 
         return inner
 
-- 
2.43.0


From 44912aca6ec35ea8e821e66b508dec0e9bf1702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 051/191] fix: predicate x.len() is the length of the argument,
 not a call of its len attribute

---
 satella/coding/predicates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 03d3929..28d9560 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -188,6 +188,8 @@ class PredicateClass:
 
     length = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
 
+    len = length
+
     __contains__ = make_operation_two_args(operator.contains)
     __getattr__ = make_operation_two_args(getattr)
     __getitem__ = make_operation_two_args(operator.getitem)
-- 
2.43.0


From 3c28f8ace6da5cca7da94168fc19f92968a64c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:25 +0000
Subject: [PATCH 052/191] fix: for_argument() does not take a callable default
 value for an operation

---
 satella/coding/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index e3575c3..d5a7373 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -305,7 +305,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise AttributeError()
                     break
                 except (AttributeError, TypeError):
-                    v = arg.default
+                    v = None if special_behaviour else arg.default
             local_vars[arg_name] = v
 
     keywords = [param for param in params if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
@@ -327,7 +327,7 @@ def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwar
                         raise TypeError('Not enough keyword arguments')
                     v = None
                 else:
-                    v = keyword.default
+                    v = None if special_behaviour else keyword.default
             except (AttributeError, TypeError):
                 continue  # comparison was impossible
 
-- 
2.43.0


From 19af07d83e62bf508e1d7ad44391a01bd86a0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:40 +0000
Subject: [PATCH 053/191] fix: ListDeleter does not return to the last element
 after passing the first one

---
 satella/coding/deleters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..a93c2dd 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        if self.current_index == -1:    # this would index the last element
+            raise StopIteration('First element reached')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,6 +187,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
+        if self.current_index == -1:    # this would index the last element
+            raise StopIteration('Cannot go previous on a first element!')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
-- 
2.43.0


From 0124f7fc5ac427be1751c3f3aaf70c6a644d7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 054/191] fix: Proxy wraps results of | and & as of any other
 bitwise operation

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..99445e0 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -183,9 +183,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From 66f2b8b3621b550a0a8d918f92497c87812408e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 055/191] fix: Proxy of an awaitable can be awaited

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 99445e0..3a1507a 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -292,7 +292,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From 2dd047a1f1dad21da18b2ba17f77ede650b6a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 056/191] fix: Proxy supports the % operator as every other
 arithmetic operator

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 3a1507a..421f22b 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -123,6 +123,18 @@ class Proxy(tp.Generic[T]):
     def __mul__(self, other):
         return self.__obj * other
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
     def __divmod__(self, other) -> tp.Tuple[Number, Number]:
         return divmod(self.__obj, other)
 
-- 
2.43.0


From a307bc3fe49f55193ea5a59f85a9e58c000243b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 057/191] fix: round() of a Proxy is what round() of the object
 is

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 421f22b..b03d9c0 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -355,7 +355,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From ead037f29a48b85bc2e9c024f78f87efaf384900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 058/191] fix: comparing an Optional of None is always false,
 also by order

---
 satella/coding/optionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..2cac89c 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        obj = getattr(self, '_Proxy__obj')
+        return False if obj is None else obj < other
+
+    def __le__(self, other) -> bool:
+        obj = getattr(self, '_Proxy__obj')
+        return False if obj is None else obj <= other
+
+    def __gt__(self, other) -> bool:
+        obj = getattr(self, '_Proxy__obj')
+        return False if obj is None else obj > other
+
+    def __ge__(self, other) -> bool:
+        obj = getattr(self, '_Proxy__obj')
+        return False if obj is None else obj >= other
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
-- 
2.43.0


From 1ca49a594684846fc20a20681f455d73cf450375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 059/191] fix: DictionaryEQAble are not equal if only the other
 one has an attribute

---
 satella/coding/structures/mixins/eqable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1aa5922 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -10,7 +10,7 @@ class DictionaryEQAble:
     """
 
     def __eq__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return False
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
@@ -18,7 +18,7 @@ class DictionaryEQAble:
         return True
 
     def __ne__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return True
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-- 
2.43.0


From 0f0c65dcc95f1c6ccfe7dcb63cfcbe1b802b82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 060/191] fix: assert_equal() raises Inequal for a container
 compared to an object of another kind

---
 satella/coding/deep_compare.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..c23b285 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From 9ca321a31a0ba0cf9d1507d78f3a0d75037890df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 061/191] fix: frozendict cannot be changed by any method of
 dict

---
 satella/coding/structures/immutable.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..4a66744 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,24 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    def __delitem__(self, key):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def __ior__(self, other):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def pop(self, *args):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def popitem(self):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def setdefault(self, *args):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def clear(self):
+        raise TypeError('Cannot update a frozen dict!')
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From b5d450327b767e9b14e1183c33b7b197435a441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 062/191] fix: frozendict can be pickled and copied deeply

---
 satella/coding/structures/immutable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 4a66744..49eaf90 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -94,6 +94,9 @@ class frozendict(dict):
     def clear(self):
         raise TypeError('Cannot update a frozen dict!')
 
+    def __reduce__(self):
+        return self.__class__, (dict(self),)
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From 96392e660e44c403acd504ce3a0c890544bf4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 063/191] fix: instances of typednamedtuple belong to that
 class; extra arguments are not ignored

---
 satella/coding/structures/typednamedtuple.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..9720c24 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -8,7 +8,7 @@ def _nth(it, n):
 
 def _adjust(q):
     var, type_ = q
-    if type_ in (None, 'self') or isinstance(var, type_):
+    if type_ in (None, 'self') or (isinstance(type_, type) and isinstance(var, type_)):
         return var
     return type_(var)
 
@@ -42,21 +42,25 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
 
     class Wrapper(MyCls):
         __doc__ = MyCls.__doc__
-        __name__ = MyCls.__name__
 
         def __new__(cls, *args, **kwargs):
 
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
+
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
             for next_field_name in fieldnames[len(nargs):]:
                 try:
-                    nargs.append(_adjust((kwargs.pop(next_field_name), mapping[next_field_name])))
+                    value = kwargs.pop(next_field_name)
                 except KeyError:
-                    raise TypeError('Field %s not given', next_field_name)
+                    raise TypeError('Field %s not given' % (next_field_name,))
+                nargs.append(_adjust((value, mapping[next_field_name])))
 
             if len(kwargs) > 0:
                 raise TypeError('Too many parameters')
 
-            return MyCls.__new__(MyCls, *nargs)
+            return MyCls.__new__(cls, *nargs)
 
+    Wrapper.__name__ = Wrapper.__qualname__ = cls_name
     return Wrapper
-- 
2.43.0


From 6e1f78231051fec1a840cd51649277bc6102b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 064/191] fix: singleton whose constructor failed is not served
 later

---
 satella/coding/structures/singleton.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..fa94cf4 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -25,7 +25,11 @@ def Singleton(cls):
             return it
 
         cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
+        try:
+            it.__init_old__(*args, **kw)
+        except BaseException:
+            del cls.__it__
+            raise
         return it
 
     cls.__new__ = singleton_new
@@ -83,7 +87,11 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
                 return it[key]
 
             inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
+            try:
+                inst.__init_old__(*args, **kw)
+            except BaseException:
+                it.pop(key, None)
+                raise
             return inst
 
         cls.__new__ = singleton_new
-- 
2.43.0


From 273493f39babd9718562ccfd42b437f4d75b3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 065/191] fix: transaction closes the cursor and the connection
 even if committing failed

---
 satella/db.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..3b44903 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -44,17 +44,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
-        if exc_val is not None and self.log_exception:
-            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
-
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+
+            if exc_val is not None and self.log_exception:
+                logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From a36c40f3eb2760ca09901d5fe57815c2ca1e8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 066/191] fix: CopyDocsFrom copies documentation of every
 method

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From 675bed347076c5ef88294d79601312e75dbd4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 067/191] fix: leaving a nested Context returns to the
 enclosing one; variables given to it are there

---
 satella/coding/environment.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..b379651 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -56,8 +56,8 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
-        ctxt.parent = parent
+        variables = {} if self is parent else self.variables
+        ctxt = Context(parent=parent, **variables)
         local.thread_context = ctxt
         return ctxt
 
@@ -87,13 +87,11 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
-                del local.thread_context
-            except AttributeError:
-                pass
+        parent = local.thread_context.parent
+        if parent is None:
+            del local.thread_context
         else:
-            local.thread_context = self.parent
+            local.thread_context = parent
         return False
 
     @staticmethod
-- 
2.43.0


From 559eb03def387108fd2a62357e78f82569c631ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 068/191] fix: transaction accepts any callable returning a
 connection, eg. a bound method

---
 satella/db.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index 3b44903..172e817 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -1,4 +1,3 @@
-import inspect
 import logging
 
 logger = logging.getLogger(__name__)
@@ -36,7 +35,7 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        if callable(self._connection) and not hasattr(self._connection, 'cursor'):
             conn = self._connection()
             self._connection = conn
             return conn
-- 
2.43.0


From 228091b8e9ecbe9c96651b49d3ce6977832ba349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:02 +0000
Subject: [PATCH 069/191] fix: str() of a CustomException having keyword
 arguments

---
 satella/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..786ec17 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -29,7 +29,8 @@ class CustomException(Exception):
         a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
         try:
             if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
+                a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])),
+                                          self.kwargs.items()))
         except AttributeError:
             pass
         a += ')'
-- 
2.43.0


From d3ef81de65696ee3b0b33e35e04d8127f173b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 070/191] fix: every update of an AtomicNumber in place wakes
 up the threads waiting for a change

---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d887282 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From 98b698d2f837e28b7d7ee9ef07fb0ec9c11340bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 071/191] fix: AtomicNumber.wait_until_equal does not miss an
 update made just before it starts to wait

---
 satella/coding/concurrent/atomic.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d887282..97228a0 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -272,16 +272,17 @@ class AtomicNumber(Monitor):
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
         if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
+            # updates notify with the condition's lock held, so none can be missed
+            with self.condition:
+                while not self.value == v:
+                    self.wait()
         else:
             with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
+                with self.condition:
+                    while not measurement.timeouted:
+                        if self.value == v:
+                            break
+                        self.wait(measurement.time_remaining, throw_exception=False)
 
                 with Monitor.acquire(self):
                     if self.value != v:
-- 
2.43.0


From 350373202edc883997a8db67e8e04f7096af3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 072/191] fix: operators on two AtomicNumbers, or on a number
 and itself, do not deadlock

---
 satella/coding/concurrent/atomic.py | 65 ++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 97228a0..ca65106 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -2,12 +2,28 @@ import typing as tp
 
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.thread import Condition
+from satella.coding.decorators.decorators import wraps
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
 Number = tp.Union[int, float]
 
 
+def _plain_operand(fun: tp.Callable) -> tp.Callable:
+    """
+    Decorator for methods that take another operand. If it's an AtomicNumber, it's value will be
+    read before this number gets locked, so that locks of two numbers are never held at once.
+    """
+    @wraps(fun)
+    def inner(self, other, *args):
+        if isinstance(other, AtomicNumber):
+            with Monitor.acquire(other):
+                other = other.value
+        return fun(self, other, *args)
+
+    return inner
+
+
 class AtomicNumber(Monitor):
     """
     An atomic number. Note that the class is not hashable and for a reason, since it's value
@@ -53,42 +69,51 @@ class AtomicNumber(Monitor):
     def __repr__(self) -> str:
         return 'AtomicNumber(%s)' % (self.value,)
 
+    @_plain_operand
     @Monitor.synchronized
     def __and__(self, other: Number) -> Number:
         return self.value & other
 
+    @_plain_operand
     @Monitor.synchronized
     def __or__(self, other: Number) -> Number:
         return self.value | other
 
+    @_plain_operand
     @Monitor.synchronized
     def __xor__(self, other: Number) -> Number:
         return self.value ^ other
 
+    @_plain_operand
     @Monitor.synchronized
     def __rand__(self, other: Number) -> Number:
         return other & self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __ror__(self, other: Number) -> Number:
         return other | self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rxor__(self, other: Number) -> Number:
         return other ^ self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
@@ -99,145 +124,175 @@ class AtomicNumber(Monitor):
     def __str__(self) -> str:
         return str(self.value)
 
+    @_plain_operand
     @Monitor.synchronized
     def __gt__(self, other: Number):
         return self.value > other
 
+    @_plain_operand
     @Monitor.synchronized
     def __lshift__(self, other: int) -> Number:
         return self.value << other
 
+    @_plain_operand
     @Monitor.synchronized
     def __rshift__(self, other: int) -> Number:
         return self.value >> other
 
+    @_plain_operand
     @Monitor.synchronized
     def __rlshift__(self, other: int) -> Number:
         return other << self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rrshift__(self, other: int) -> Number:
         return other >> self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __ge__(self, other: Number):
         return self.value >= other
 
+    @_plain_operand
     @Monitor.synchronized
     def __lt__(self, other: Number):
         return self.value < other
 
+    @_plain_operand
     @Monitor.synchronized
     def __le__(self, other: Number):
         return self.value <= other
 
+    @_plain_operand
     @Monitor.synchronized
     def __iadd__(self, other: Number) -> 'AtomicNumber':
         self.value += other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __pow__(self, power: Number, modulo=None) -> Number:
         return pow(self.value, power, modulo)
 
+    @_plain_operand
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __radd__(self, other: Number) -> Number:
         return other + self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rsub__(self, other: Number) -> Number:
         return other - self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rmul__(self, other: Number) -> Number:
         return other * self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rtruediv__(self, other: Number) -> Number:
         return other / self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rfloordiv__(self, other: Number) -> Number:
         return other // self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __rpow__(self, other: Number) -> Number:
         return other ** self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __radd__(self, other: Number) -> Number:
         return other + self.value
 
+    @_plain_operand
     @Monitor.synchronized
     def __add__(self, other: Number) -> Number:
         return self.value + other
 
+    @_plain_operand
     @Monitor.synchronized
     def __sub__(self, other: Number) -> Number:
         return self.value - other
 
+    @_plain_operand
     @Monitor.synchronized
     def __mul__(self, other: Number) -> Number:
         return self.value * other
 
+    @_plain_operand
     @Monitor.synchronized
     def __truediv__(self, other: Number) -> Number:
         return self.value / other
 
+    @_plain_operand
     @Monitor.synchronized
     def __floordiv__(self, other: Number) -> Number:
         return self.value // other
 
+    @_plain_operand
     @Monitor.synchronized
     def __itruediv__(self, other: Number) -> 'AtomicNumber':
         self.value /= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __ifloordiv__(self, other: Number) -> 'AtomicNumber':
         self.value //= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __isub__(self, other: int) -> 'AtomicNumber':
         self.value -= other
         self.condition.notify_all()
         return self
 
+    @_plain_operand
     @Monitor.synchronized
     def __imul__(self, other: int) -> 'AtomicNumber':
         self.value *= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
-        if isinstance(other, AtomicNumber):
-            with Monitor.acquire(other):
+        if isinstance(other, AtomicNumber) and other is not self:
+            # always lock in the same order
+            first, second = (self, other) if id(self) < id(other) else (other, self)
+            with Monitor.acquire(first), Monitor.acquire(second):
                 return self.value == other.value
-        else:
-            return self.value == other
+        with Monitor.acquire(self):
+            return self.value == (self.value if other is self else other)
 
     @Monitor.synchronized
     def __int__(self) -> int:
-- 
2.43.0


From 6bf9330ae50bc8f76f0dbd56b2e6c372be256d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 073/191] fix: a thread waiting on PeekableQueue does not miss
 an element, nor a peeking thread use up its notification

---
 satella/coding/concurrent/queue.py | 58 +++++++-----------------------
 1 file changed, 12 insertions(+), 46 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..ae2e869 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -3,9 +3,8 @@ import threading
 import typing as tp
 
 from satella.coding.concurrent.thread import Condition
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.typing import T
-from satella.exceptions import WouldWaitMore, Empty
+from satella.exceptions import Empty
 from satella.time.measure import measure
 
 
@@ -29,7 +28,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+        self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,53 +37,20 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+        self.inserted_condition.notify_all()
 
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
-
-    @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
-            try:
-                return item_getter(self.queue)
-            finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+        # putters notify with the condition's lock held, so no element put can be missed
+        with measure(timeout=timeout) as measurement, self.inserted_condition:
+            while True:
+                with self.lock:
+                    if len(self.queue):
+                        return item_getter(self.queue)
+                if measurement.timeouted:
+                    raise Empty('queue is empty')
+                self.inserted_condition.wait(timeout=measurement.time_remaining, dont_raise=True)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From 71d488eeb43706b9bb9d122362ba6a62b64d48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 074/191] fix: leaving a LockedDataset does not mark it as
 unlocked under another thread that has just locked it

---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From 025f9ef61e6a0e49e7b985cfe68d5ab8d07e73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 075/191] fix: blocking and timeout given to a LockedDataset do
 not carry over to later uses and other threads

---
 satella/coding/concurrent/locked_dataset.py | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c92be..b931eb8 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,11 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,12 +80,9 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
-
-    def __enter__(self):
-        args = _get_internal(self).args
+        return _LockedWith(self, blocking, timeout)
 
+    def __enter__(self, *args):
         if not _get_internal(self).lock.acquire(*args):
             raise WouldWaitMore('Resource is still locked')
         _get_internal(self).locked = True
@@ -98,5 +94,20 @@ class LockedDataset:
         return False
 
 
+class _LockedWith:
+    """Locks a dataset with given arguments, that apply to this single use only"""
+    __slots__ = ('dataset', 'args')
+
+    def __init__(self, dataset, *args):
+        self.dataset = dataset
+        self.args = args
+
+    def __enter__(self):
+        return self.dataset.__enter__(*self.args)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        return self.dataset.__exit__(exc_type, exc_val, exc_tb)
+
+
 def _get_internal(self):
     return super(LockedDataset, self).__getattribute__('_LockedDataset__internal')
-- 
2.43.0


From dfe32f0c37fa6fc4593f168f12f7e3dea91b6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:41 +0000
Subject: [PATCH 076/191] fix: of two threads setting a DeferredValue at once
 only one succeeds

---
 satella/coding/concurrent/value.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..2597dcf 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,10 +36,11 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
-        self.lock.set()
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
+            self.lock.set()
 
     def result(self, timeout=None) -> T:
         """An alias for :meth:`~satella.coding.concurrent.DeferredValue.value`"""
-- 
2.43.0


From 2292e21cbbcdb5f627da9115ac7875cd76f4be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:40 +0000
Subject: [PATCH 077/191] fix: SyncableDroppable loses no entries added or read
 while others are being stored

---
 .../coding/structures/syncable_droppable.py   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 8b52b01..dc66038 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,9 +208,10 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if self.data_in_memory and self.first_key_in_memory <= start:
+        memory = self.data_in_memory   # will be replaced, and not altered, if stored meanwhile
+        if memory and memory[0][0] <= start:
             # We'll serve it from memory
-            for key, value in self.data_in_memory:
+            for key, value in memory:
                 if key < start:
                     continue
                 if key > stop:
@@ -224,13 +225,18 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                         continue
                     if key > stop:
                         return
+                    if memory and key >= memory[0][0]:
+                        break       # stored in the meantime
                     yield key, value
                 # We must iterate from the memory
-                if self.data_in_memory:
-                    yield from self.get_archive(self.first_key_in_memory, stop)
+                for key, value in memory:
+                    if key > stop:
+                        return
+                    yield key, value
             finally:
                 try_close(it)
 
+    @RMonitor.synchronized
     def get_latest_value(self) -> KVTuple:
         """
         Get the piece of data that was added here last
@@ -263,7 +269,8 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             if ts > cutoff_point:
                 for ts, value in self.data_in_memory[:index]:
                     self.db_storage.put(ts, value)
-                del self.data_in_memory[:index]
+                # readers may be still using the previous list
+                self.data_in_memory = self.data_in_memory[index:]
                 break
         else:
             self.sync_to_db()
@@ -290,6 +297,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 return
             self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -362,6 +370,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 try_close(iterator)
         return v
 
+    @RMonitor.synchronized
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
-- 
2.43.0


From d55d28bf60edfb7abc78ea7f58b09aa27c2f5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 078/191] fix: Future.exception() can be called without a
 timeout, as that of a Python future

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..9b27d38 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout=None) -> tp.Type[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From a66843bfda70d625cc97a8477cad7095a75c7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 079/191] fix: on_success callbacks are not called if the
 future was cancelled

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 9b27d38..8d3543b 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut._exception is not None or fut.cancelled():
                 return
             return fun(fut._result)
 
-- 
2.43.0


From d15149d3b633480a26e1da9d78c15dd9bcefcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 080/191] fix: pre-done callbacks may turn an exception into a
 result; other threads see only the final outcome

---
 satella/coding/concurrent/futures/futures.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 8d3543b..554bb17 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -119,14 +119,21 @@ class Future(PythonFuture, tp.Generic[T]):
             except Exception:
                 LOGGER.exception('exception calling callback for %r', self)
 
+    def _in_pre_callbacks(self) -> bool:
+        """
+        Is this called from one of pre-done callbacks? Other threads need to wait until they finish.
+        """
+        # noinspection PyProtectedMember
+        return self._state == PRE_FINISHED and self._condition._is_owned()
+
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_callbacks():
             return self.__get_result()
         else:
             return super().result(timeout)
 
     def exception(self, timeout=None) -> tp.Type[Exception]:
-        if self._state == PRE_FINISHED:
+        if self._in_pre_callbacks():
             return self._exception
         else:
             return super().exception(timeout)
@@ -136,8 +143,9 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_callbacks():
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
@@ -156,7 +164,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._in_pre_callbacks():
             self._exception = exception
             self._result = None
         else:
-- 
2.43.0


From c564382e33a151288bcf3bd114cff4ddc6168b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 081/191] fix: WrappingFuture does not appear done before it
 receives the outcome of the source future

---
 satella/coding/concurrent/futures/futures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 554bb17..3300cf8 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -194,7 +194,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-- 
2.43.0


From dd6262dcd3909523e57f1b1d9313173b762d4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 082/191] fix: cancelling the source of a WrappingFuture wakes
 up those waiting for it and calls its callbacks

---
 satella/coding/concurrent/futures/futures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 3300cf8..a335ef2 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -210,13 +210,16 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 79e78e3698a0778800dda81fe9024a4e3e18f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 083/191] fix: FutureCollection cancels, or sets running, all
 of the futures

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 11254aa8a789a5b7e2d62e6ae0034ccbca71f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 084/191] fix: sync_threadpool leaves no worker of the pool
 blocked, also if it times out

---
 satella/coding/concurrent/sync.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..8ca0c2e 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
+import threading
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,23 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        released = threading.Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            released.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            released.set()
         wait(futures)
-- 
2.43.0


From a26b097fe9bc6d4c1c6a5986e70aac94ca52f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 085/191] fix: WrappingFuture does not appear done if its
 source finishes while the state is being read

---
 satella/coding/concurrent/futures/futures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index a335ef2..7bde632 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -197,10 +197,11 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        state = self.source_future._state   # might change in the meantime
+        if state == FINISHED:
             return self._old_state
         else:
-            return self.source_future._state
+            return state
 
     @_state.setter
     def _state(self, v: str):
-- 
2.43.0


From dcde37611ff91411f24719886874f101541ed833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 086/191] fix: has_cancelled_callbacks of a CallableGroup is
 true iff a callback was cancelled

---
 satella/coding/concurrent/callablegroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..204a0f4 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -112,8 +112,8 @@ class CallableGroup(tp.Generic[T]):
         :class:`~satella.coding.concurrent.CancellableCallback` instances and whether any
         of them was cancelled
         """
-        for clb in self.callables:
-             if clb:
+        for clb in list(self.callables):
+            if isinstance(clb, CancellableCallback) and not clb:
                 return True
         return False
 
-- 
2.43.0


From 4355b5ef6f2f925ff9cb10da3fbcb886050c9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 087/191] fix: calling a CallableGroup forgets no callbacks,
 also if one raises or other threads add or call meanwhile

---
 satella/coding/concurrent/callablegroup.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 204a0f4..65d358b 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,9 +1,6 @@
-import collections
-import copy
 import time
 import typing as tp
 
-from satella.coding.deleters import DictDeleter
 from satella.coding.typing import T, NoArgCallable
 
 
@@ -101,7 +98,7 @@ class CallableGroup(tp.Generic[T]):
 
     def __init__(self, gather: bool = True, swallow_exceptions: bool = False):
 
-        self.callables = collections.OrderedDict()  # type: tp.Dict[tp.Callable, tuple[bool, int]]
+        self.callables = {}  # type: tp.Dict[tp.Callable, tuple[bool, int]]
         self.gather = gather  # type: bool
         self.swallow_exceptions = swallow_exceptions  # type: bool
 
@@ -121,10 +118,9 @@ class CallableGroup(tp.Generic[T]):
         """
         Remove it's entries that are CancelledCallbacks and that were cancelled
         """
-        with DictDeleter(self.callables) as dd:
-            for callable_ in dd:
-                if isinstance(callable_, CancellableCallback) and not callable_:
-                    dd.delete()
+        for callable_ in list(self.callables):
+            if isinstance(callable_, CancellableCallback) and not callable_:
+                self.callables.pop(callable_, None)
 
     def add(self, callable_: tp.Union[CancellableCallback, NoArgCallable[T]],
             one_shot: bool = False) -> CancellableCallback:
@@ -168,12 +164,13 @@ class CallableGroup(tp.Generic[T]):
         if self.has_cancelled_callbacks:
             self.remove_cancelled()
 
-        callables = copy.copy(self.callables)
-        self.callables.clear()
+        callables = list(self.callables.items())
 
         results = []
 
-        for call, one_shot in callables.items():
+        for call, one_shot in callables:
+            if one_shot and self.callables.pop(call, None) is None:
+                continue  # it has been called in the meantime
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -184,9 +181,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
-- 
2.43.0


From 872c26f249a3f653979adae5ef2c7cc0ff67c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 088/191] fix: CallNoOftenThan calls the first time at once,
 and counts calls that raised

---
 satella/coding/concurrent/callablegroup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 65d358b..445b015 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -201,9 +201,11 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = None  # type: tp.Optional[float]
 
     def __call__(self, *args, **kwargs):
-        if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
-            self.last_called = time.monotonic()
+        if self.last_called is None or time.monotonic() - self.last_called >= self.interval:
+            try:
+                self.callable(*args, **kwargs)
+            finally:
+                self.last_called = time.monotonic()
-- 
2.43.0


From 9101d4c6dee9545feb22a3cab50f86e5058ae9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 089/191] fix: LocalRelativeValue fires if memory available to
 the process is low, not if it is high

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From b0f8fbb4da4e6004168f3125966470ec07d56270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 090/191] fix: objects registered for cleanup while a cleanup
 is in progress are not lost

---
 satella/instrumentation/memory/memthread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/memory/memthread.py b/satella/instrumentation/memory/memthread.py
index 10bfb4e..7bd3d3c 100644
--- a/satella/instrumentation/memory/memthread.py
+++ b/satella/instrumentation/memory/memthread.py
@@ -99,13 +99,14 @@ class MemoryPressureManager(IntervalTerminableThread):
                 # Means we are ENTERING a severity level
                 self.severity_level += delta
                 self.callbacks_on_entered[self.severity_level]()
-                new_list = []
-                for ref, collector in self.objects_to_cleanup_on_entered[self.severity_level]:
+                objects = self.objects_to_cleanup_on_entered[self.severity_level]
+                for entry in list(objects):
+                    ref, collector = entry
                     obj = ref()
                     if obj is not None:
                         collector(obj)
-                        new_list.append((ref, collector))
-                self.objects_to_cleanup_on_entered[self.severity_level] = new_list
+                    else:
+                        objects.remove(entry)   # others may be appending meanwhile
                 if self.log_transitions:
                     logger.warning('Entered severity level %s' % (self.severity_level,))
             elif delta < 0:
-- 
2.43.0


From 8a91edc109d8d7e248facac2d8f6b7e5203aaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 091/191] fix: CPManager creates no more than max_number
 connections

---
 satella/coding/resources/cp_manager.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..1e6d51b 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -67,7 +67,9 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
 
     def acquire_connection(self) -> T:
         """
-        Either acquire a new connection, or just establish it in the background
+        Either acquire a new connection, or just establish it in the background.
+
+        Blocks while there are max_number connections and all of them are taken.
 
         :return: a new connection:
         :raises RuntimeError: CPManager is terminating!
@@ -79,12 +81,19 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         except queue.Empty:
             while True:
                 with silence_excs(queue.Empty), Monitor.acquire(self):
-                    if self.connections.qsize() >= self.max_number:
-                        conn = self.connections.get(False, 5)
+                    if len(self.id_to_times) >= self.max_number:
+                        conn = self.connections.get(False)
                         break
                     else:
                         conn = self.create_connection()
+                        self.id_to_times[id(conn)] = 0
                         break
+                if self.terminating:
+                    raise RuntimeError('CPManager is terminating')
+                with silence_excs(queue.Empty):
+                    # all the connections are taken, wait for one
+                    conn = self.connections.get(True, 1)
+                    break
         with Monitor.acquire(self):
             obj_id = id(conn)
             self.id_to_times[obj_id] = self.id_to_times.get(obj_id, 0) + 1
-- 
2.43.0


From 30afe2e3837bd730c907e6cda6c3b002d5032319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 092/191] fix: CPManager.invalidate does not block forever if a
 connection is being acquired

---
 satella/coding/resources/cp_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 1e6d51b..ad8c06e 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -61,9 +61,12 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
         while self.connections.qsize() > 0:
-            conn = self.connections.get()
-            self.teardown_connection(conn)
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:
+                break   # acquired by another thread
             del self.id_to_times[id(conn)]
+            self.teardown_connection(conn)
 
     def acquire_connection(self) -> T:
         """
-- 
2.43.0


From 8e827ec79002da2b2b0c1368ea7a9c473ca841ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:29 +0000
Subject: [PATCH 093/191] fix: connections released after CPManager was closed
 are torn down

---
 satella/coding/resources/cp_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index ad8c06e..07e9517 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -109,13 +109,15 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         :param connection: connection to release
         """
         obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
+        if self.terminating or self.id_to_times[obj_id] >= self.max_cycle_no:
             self._kill_connection(connection)
         else:
             try:
                 self.connections.put(connection, False)
             except queue.Full:
                 self._kill_connection(connection)
+            if self.terminating:
+                self.invalidate()   # closed in the meantime
 
     def _kill_connection(self, connection):
         obj_id = id(connection)
-- 
2.43.0


From aea111cb398a5caedfb604605cab65798377954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 094/191] fix: Timers that fall due at the same time do not
 break each other

---
 satella/coding/concurrent/timer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..536cc8c 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -54,6 +54,10 @@ n     If spawn_separate is False, exceptions will be logged.
         """Do not execute this timer"""
         self.cancelled = True
 
+    def __lt__(self, other: 'Timer') -> bool:
+        """Timers due at the same time may be executed in any order"""
+        return False
+
     def _try_execute(self):
         if self.cancelled:
             return
@@ -83,7 +87,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From c3c4ee4adb59733468711684adebe51b649def8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 095/191] fix: a Timer function calling sys.exit() does not
 prevent all the other timers from firing

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 536cc8c..b0d6e31 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -90,5 +90,5 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
-                with log_exceptions(logger, swallow_exception=True):
+                with log_exceptions(logger, exc_types=BaseException, swallow_exception=True):
                     item[1]._try_execute()
-- 
2.43.0


From 0cf7262585f00c49df3de6edbe811f11fe0646ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 096/191] fix: the first timers may be started by several
 threads at once

---
 satella/coding/concurrent/timer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index b0d6e31..618fffa 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -10,6 +10,7 @@ from satella.coding.structures.singleton import Singleton
 from satella.time.parse import parse_time_string
 
 logger = logging.getLogger(__name__)
+_start_lock = threading.Lock()
 
 
 class Timer:
@@ -46,7 +47,8 @@ n     If spawn_separate is False, exceptions will be logged.
         Order this timer task to be executed in interval seconds
         """
         execute_at = time.monotonic() + self.interval
-        tbt = TimerBackgroundThread()
+        with _start_lock:
+            tbt = TimerBackgroundThread()
         with Monitor.acquire(tbt):
             tbt.timer_objects.put(execute_at, self)
 
-- 
2.43.0


From 9c1ff6e866316766d7127e3f8a11b62fbbfda863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 097/191] fix: SingleStartThread.start() returns the thread
 also if it was started already

---
 satella/coding/concurrent/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..3adb41c 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -160,7 +160,7 @@ class SingleStartThread(threading.Thread):
         :return: self
         """
         if self.__started:
-            return
+            return self
         self.__started = True
         super().start()
         return self
-- 
2.43.0


From be6d1f8ed6d1904e317a33b3c907230426bc8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 098/191] fix: BogusTerminableThread.join() works without a
 timeout and does not exceed one

---
 satella/coding/concurrent/thread.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 3adb41c..79168ac 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -220,10 +220,12 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
-                time.sleep(1)
-            if not self.terminated:
-                raise WouldWaitMore('thread failed to terminate')
+            while not self.terminated:
+                remaining = 1 if timeout is None else timeout - (time.monotonic() - started_elapsing)
+                if remaining <= 0:
+                    raise WouldWaitMore('thread failed to terminate')
+                time.sleep(min(remaining, 1))
+        self.started = False
 
 
 class TerminableThread(threading.Thread):
-- 
2.43.0


From 618413bbec04af3c759637822b44dceee61773de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 099/191] fix: TerminableThread is terminated by SystemExit as
 by its other terminable exceptions

---
 satella/coding/concurrent/thread.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 79168ac..0085d97 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -337,7 +337,8 @@ class TerminableThread(threading.Thread):
                             return
                     raise
         except SystemExit:
-            pass
+            if not self._terminating:
+                self.terminate()
         finally:
             self.cleanup()
 
@@ -521,6 +522,7 @@ class IntervalTerminableThread(TerminableThread, metaclass=ABCMeta):
                 else:
                     self.safe_sleep(time_to_sleep)
         except SystemExit:
-            pass
+            if not self._terminating:
+                self.terminate()
         finally:
             self.cleanup()
-- 
2.43.0


From ca2f7dfeaf64bdc1be7bad954ada711898926be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 100/191] fix: CPUTimeAwareIntervalTerminableThread accepts a
 time string without max_sooner, and max_sooner of 0

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 6eb82920fb49a543dbb59827e308f16a358cd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 101/191] fix: CPUTimeAwareIntervalTerminableThread is
 terminated by SystemExit

---
 satella/instrumentation/cpu_time/concurrency.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 86590f1..92ee065 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -89,5 +89,8 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                     self.__sleep(seconds_to_wait)
                 elif seconds_to_wait < 0:
                     self.on_overrun(measured)
+        except SystemExit:
+            if not self._terminating:
+                self.terminate()
         finally:
             self.cleanup()
-- 
2.43.0


From fa7839a8683b72e12679b5218dcf278bbaa086dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:35 +0000
Subject: [PATCH 102/191] fix: a value not matching a Regexp defined by a
 string fails validation instead of with AttributeError

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From 332084677c73daf50ddf123d7e35e08447dd8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 103/191] fix: IPv4 accepts valid addresses only, not
 everything that starts with four numbers

---
 satella/configuration/schema/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..a432e2d 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -231,4 +231,4 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]{1,2})(?:\.(?!\Z)|\Z)){4}\Z'
-- 
2.43.0


From f6773e51da550817941bde3e582d1bebd32e2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 104/191] fix: descriptor_from_dict() raises
 ConfigurationSchemaError for an unknown descriptor type

---
 satella/configuration/schema/from_json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..f62926b 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -12,6 +12,7 @@ def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
         if value in PLAIN_ENTRIES:
             return create_key(BASE_LOOKUP_TABLE[value](),
                               key, False, None)
+        raise KeyError(value)
     except KeyError:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
 
@@ -55,6 +56,8 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
+        if type_ not in BASE_LOOKUP_TABLE:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
         descriptor = BASE_LOOKUP_TABLE[type_](*args)
         return create_key(descriptor, key, optional, default)
 
-- 
2.43.0


From ee59c0dd3d64e24d2bcff82d4a7b64b4468af56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 105/191] fix: FileObject and DirectoryObject are equal to the
 string of their path, as documented

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index a432e2d..ee4079a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -72,7 +72,7 @@ class FileObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, FileObject)
+        return self.path == str(other) and isinstance(other, (FileObject, str))
 
     def __hash__(self) -> int:
         return hash(self.path)
@@ -119,7 +119,7 @@ class DirectoryObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, DirectoryObject)
+        return self.path == str(other) and isinstance(other, (DirectoryObject, str))
 
     def __hash__(self) -> int:
         return hash(self.path)
-- 
2.43.0


From d268bef913ca278f4eff00281dd9d8d38a2e2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 106/191] fix: FileContents raises ConfigurationValidationError
 if the file cannot be read

---
 satella/configuration/schema/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index ee4079a..0c3f88a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -156,6 +156,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
+    MY_EXCEPTIONS = [TypeError, ValueError, OSError]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
-- 
2.43.0


From 04416b9289f2f132191480fbe4a88933cf4c084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 107/191] fix: numbers too big to be converted fail schema
 validation instead of with OverflowError

---
 satella/configuration/schema/base.py  | 2 +-
 satella/configuration/schema/basic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/base.py b/satella/configuration/schema/base.py
index 3abb886..db851a6 100644
--- a/satella/configuration/schema/base.py
+++ b/satella/configuration/schema/base.py
@@ -48,7 +48,7 @@ class Descriptor:
                  'my_exceptions')
 
     BASIC_MAKER = staticmethod(lambda v: v)
-    MY_EXCEPTIONS = [TypeError, ValueError]  # a list of Exception classes
+    MY_EXCEPTIONS = [TypeError, ValueError, OverflowError]  # a list of Exception classes
     CHECKERS = []  # a list of CheckerCondition
 
     def __init__(self):
diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 0c3f88a..0059856 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -156,7 +156,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
-    MY_EXCEPTIONS = [TypeError, ValueError, OSError]
+    MY_EXCEPTIONS = Descriptor.MY_EXCEPTIONS + [OSError]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
-- 
2.43.0


From 59f18cfd0473a60a15eb61ebf898acec89fe66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 108/191] fix: Caster is a complete descriptor, and reports a
 TypeError as a validation error

---
 satella/configuration/schema/structs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 7d55518..4b16f87 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -55,9 +55,10 @@ class Caster(Descriptor):
     """
 
     def __init__(self, to_cast: tp.Callable[[tp.Any], tp.Any]):
+        super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as(ValueError, ConfigurationValidationError)
+    @rethrow_as((ValueError, TypeError), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
         return self.to_cast(value)
 
-- 
2.43.0


From 75a8a37286d7e6f8a86b26924b0c86d4de49a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:39 +0000
Subject: [PATCH 109/191] fix: create_key() does not alter the descriptor, so
 that it can be used for many keys

---
 satella/configuration/schema/structs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 4b16f87..879b7e7 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -35,6 +35,7 @@ DictDescriptorKey = tp.NewType('DictDescriptorKey', Descriptor)
 
 def create_key(descriptor: Descriptor, name: str, optional: bool = False,
                default: tp.Optional[tp.Any] = None) -> DictDescriptorKey:
+    descriptor = copy.copy(descriptor)
     descriptor.name = name
     descriptor.optional = optional
     descriptor.default = default
-- 
2.43.0


From e0fff8c10f014c096c2b69d7578acea8449a2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 110/191] fix: satella.configuration can be imported before the
 rest of satella

---
 satella/coding/predicates.py                          | 3 +--
 satella/coding/structures/dictionaries/dict_object.py | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 28d9560..b2a2a0d 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -2,7 +2,6 @@ import operator
 import typing as tp
 
 from satella.coding.typing import Predicate
-from satella.configuration.schema import Descriptor
 
 __all__ = ['x', 'build_structure', 'PredicateClass']
 
@@ -149,7 +148,7 @@ class PredicateClass:
         """
         return PredicateClass(self.operation)
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None, **kwargs):
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None, **kwargs):
         """
         Check if given value has the correct schema.
         The schema is the same as in
diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 38ef366..91f17d7 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -2,7 +2,6 @@ import copy
 import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
-from satella.configuration.schema import Descriptor, descriptor_from_dict
 from satella.exceptions import ConfigurationValidationError
 
 
@@ -46,7 +45,7 @@ class DictObject(dict):
     def __delattr__(self, key):
         del self[key]
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None,
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None,
                         **kwarg_schema) -> bool:
         """
         Check if this dictionary conforms to particular schema.
@@ -63,6 +62,8 @@ class DictObject(dict):
         if kwarg_schema:
             schema = kwarg_schema
 
+        from satella.configuration.schema import Descriptor, descriptor_from_dict
+
         if isinstance(schema, Descriptor):
             descriptor = schema
         else:
-- 
2.43.0


From a3fea85648e3db4cf3c75124436a41aeae26ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 111/191] fix: 'list' can be used as a short-hand descriptor
 type, as documented

---
 satella/configuration/schema/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 879b7e7..0bc1d5f 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -7,7 +7,7 @@ from .base import Descriptor, must_be_type, ConfigDictValue
 from .registry import register_custom_descriptor
 
 
-@register_custom_descriptor('list', is_plain=False)
+@register_custom_descriptor('list')
 class List(Descriptor):
     """
     This must be a list, made of entries of a descriptor (this is optional)
-- 
2.43.0


From 627ff5cd15fdc77b3920d1fbcc4395e3b3e7dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 112/191] fix: MergingSource does not alter what its sources
 provide

---
 satella/configuration/sources/derivative.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..cdce13c 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -1,3 +1,5 @@
+import copy
+
 from satella.coding.algos import merge_dicts
 from satella.exceptions import ConfigurationError
 from .base import BaseSource
@@ -56,6 +58,20 @@ class OptionalSource(AlternativeSource):
         return 'OptionalSource(%s)' % (repr(self.sources[0], ))
 
 
+def _copy_structure(v):
+    """
+    Copy the dicts and lists that v is made of, so that they can be merged into
+    """
+    if isinstance(v, dict):
+        v = copy.copy(v)
+        for key in v:
+            v[key] = _copy_structure(v[key])
+    elif isinstance(v, list):
+        v = copy.copy(v)
+        v[:] = [_copy_structure(item) for item in v]
+    return v
+
+
 class MergingSource(BaseSource):
     """
     Source that merges configuration from a bunch of sources. The configuration has to be a
@@ -96,7 +112,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, _copy_structure(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
-- 
2.43.0


From e95f660d24ad39021a4fdf1d6f7f56408d71301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 113/191] fix: DirectorySource reads the files of a directory
 given by a relative path

---
 satella/configuration/sources/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..66a79b9 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -103,7 +103,7 @@ class DirectorySource(FileSource):
 
         for file_name in files:
 
-            fullname = os.path.join(directory, file_name)
+            fullname = file_name
             if os.path.isfile(fullname):
                 sources.append(FileSource(fullname, encoding=self.encoding,
                                           interpret_as=self.source_classes))
-- 
2.43.0


From 1ae10e6507df8ba9629c7c6c9fb9d091ee5ed0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 114/191] fix: HTTPJSONSource fails with ConfigurationError if
 what it got is not a dict

---
 satella/configuration/sources/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 66a79b9..ad2db33 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -146,7 +146,10 @@ else:
                 raise ConfigurationError(
                     'Target responded with HTTP %s' % (r.status_code,))
 
-            return r.json()
+            data = r.json()
+            if not isinstance(data, dict):
+                raise ConfigurationError('Target responded with something else than a JSON object')
+            return data
 
 
     __all__.append('HTTPJSONSource')
-- 
2.43.0


From ea8231702f849e7258523b8575e0b376425e5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 115/191] fix: load_source_from_dict() warns about arguments of
 an unknown type instead of failing

---
 satella/configuration/sources/from_dict.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..1c5ae67 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -31,6 +31,11 @@ EXTRA_TYPES = {
 }
 
 
+def is_source(type_) -> bool:
+    source = sources.__dict__.get(type_) if isinstance(type_, str) else None
+    return isinstance(source, type) and issubclass(source, BaseSource)
+
+
 @rethrow_as(Exception, ConfigurationError)
 def load_source_from_dict(dct: dict) -> BaseSource:
     """
@@ -56,14 +61,14 @@ def load_source_from_dict(dct: dict) -> BaseSource:
     def to_arg(arg):
         if isinstance(arg, dict) and 'type' in arg:
             a_type = arg['type']
-            if a_type in EXTRA_TYPES:
+            if isinstance(a_type, str) and a_type in EXTRA_TYPES:
                 return EXTRA_TYPES[a_type](arg)
-            elif a_type in sources.__dict__:
+            elif is_source(a_type):
                 return load_source_from_dict(arg)
             else:
                 warnings.warn(
                     'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                        a_type,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From 8b82187f4b2d7aa78d86c99651293b17d96fc039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 116/191] fix: getMetric() delivers its keyword arguments to
 the last metric in chain only

---
 satella/instrumentation/metrics/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..aed3127 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,15 +40,14 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
-- 
2.43.0


From a7e1db001c586c02e52563340c255d11f0cf4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 117/191] fix: getMetric() does not register a metric that its
 parent refused

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index aed3127..16e75f7 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -48,9 +48,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                                                           metric_level, **kwargs)
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From 463d440edf5514ea19ef796c7b466866b853c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 118/191] fix: a metric that was reset is no longer reported
 next to the one created in its place

---
 satella/instrumentation/metrics/metric_types/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..a1536a2 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -56,11 +56,13 @@ class Metric:
             with metrics.metrics_lock:
                 metrics.metrics = {}
                 metrics.level = MetricLevel.RUNTIME
-        else:
+            self._level = MetricLevel.RUNTIME
+        elif metrics.metrics.get(self.get_fully_qualified_name()) is self:
             with metrics.metrics_lock:
                 metrics.metrics = {k: v for k, v in metrics.metrics.items() if
                                    not k.startswith(self.get_fully_qualified_name() + '.')}
                 del metrics.metrics[self.get_fully_qualified_name()]
+                self.root_metric.children.remove(self)
         self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
-- 
2.43.0


From 912481ce0bce9c9cd6cdc254dbc6033d3eb16938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 119/191] fix: labelled submetrics of an internal metric are
 internal

---
 satella/instrumentation/metrics/metric_types/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index a1536a2..d07da7f 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -241,8 +241,10 @@ class EmbeddedSubmetrics(LeafMetric):
         and having a particular set of labels, and being of level INHERIT.
         """
 
-        return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+        metric = self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
+                                **self.kwargs)
+        metric.internal = self.internal
+        return metric
 
 
 from .registry import register_metric
-- 
2.43.0


From ed8a269eaf1ed40c3ab6907112c5d0cb909baaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 120/191] fix: counters report their timestamp

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index d07da7f..93ca3fd 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -166,7 +166,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
-- 
2.43.0


From 940fbd67aaaf91919ce122675b58ab0729de1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 121/191] fix: the timestamp of a labelled submetric is the one
 of its last update

---
 satella/instrumentation/metrics/metric_types/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 93ca3fd..53e1d4d 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -217,6 +217,7 @@ class EmbeddedSubmetrics(LeafMetric):
             self.children.append(clone)
             # noinspection PyProtectedMember
             self.children_mapping[key]._handle(*args)
+        self.children_mapping[key].last_updated = time.time()
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
-- 
2.43.0


From 16ec29bb59d814e611874b35d37d8afa4f0e53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 122/191] fix: the sum and the count of an internal histogram
 are internal

---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From 7e3378b73da9044ec4e5870235c7f23422fcd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 123/191] fix: linkfail reports the status of each address

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..1fe5a1c 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -81,5 +81,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From e59634834cd4d80f6671c89bff62052e789f920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 124/191] fix: linkfail reports the links it was given labels
 for

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 1fe5a1c..0ae8784 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -49,7 +49,7 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
         if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
+            return super()._handle(success, address, *args, **labels)
         if success:
             self.consecutive_failures[address] = 0
             self.consecutive_successes[address] += 1
@@ -67,6 +67,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
                     self.callback_on_offline(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
-- 
2.43.0


From 2ccdcc634c6e2a1976338d239f3975e486f87b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 125/191] fix: a future can be measured by more than one metric

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From de7ebb1b033cabe47cb71d193a238af47785d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 126/191] fix: MetrifiedExclusiveWritebackCache reports the
 current number of entries waiting

---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From 17301e9ed7694c7a202434b855c0f8b9450d5543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 127/191] fix: MetrifiedThreadPoolExecutor uses the thread name
 prefix it was given

---
 satella/instrumentation/metrics/structures/threadpool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..dc24e53 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -94,7 +94,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
                  time_spent_executing=None,
                  waiting_tasks: tp.Optional[CallableMetric] = None,
                  metric_level: MetricLevel = MetricLevel.RUNTIME):
-        super().__init__(max_workers)
+        super().__init__(max_workers, thread_name_prefix)
         self._initializer = initializer
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
-- 
2.43.0


From c8b8391e543bebba1e039992f119ce278708afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 128/191] fix: MetrifiedThreadPoolExecutor finishes its tasks
 after the last reference to it is gone

---
 satella/instrumentation/metrics/structures/threadpool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index dc24e53..e68d4b9 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -34,14 +34,16 @@ def _worker(executor_reference, work_queue, initializer, initargs):
                 # Measure the time spent in waiting
                 executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
+                if executor is not None:
+                    executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
                 del executor
 
                 with measure() as measurement:
                     work_item.run()
 
                 executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                if executor is not None:
+                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
-- 
2.43.0


From 12436a8060229408380017f5a9d72d38dd9ec8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 129/191] fix: altering a MetricDataCollection leaves it
 consistent and does not alter those it was made of

---
 satella/instrumentation/metrics/data.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..95fd0db 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -1,3 +1,4 @@
+import copy
 import typing as tp
 
 from satella.coding.structures import frozendict
@@ -74,7 +75,14 @@ class MetricDataCollection(JSONAble):
     """
     __slots__ = ('values',)
 
+    def _copy_values(self) -> None:
+        """
+        Make the values ours, so that they can be altered
+        """
+        self.values = {copy.copy(x) for x in self.values}
+
     def add_labels(self, labels: dict) -> None:
+        self._copy_values()
         output = set()
         for child in self.values:
             child.add_labels(labels)
@@ -129,13 +137,18 @@ class MetricDataCollection(JSONAble):
 
     def prefix_with(self, prefix: str) -> 'MetricDataCollection':
         """Prefix every child with given prefix and return self"""
+        self._copy_values()
         for child in self.values:
             child.prefix_with(prefix)
+        self.values = set(list(self.values))
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
+        self._copy_values()
         for child in self.values:
             child.postfix_with(postfix)
+        self.values = set(list(self.values))
         return self
 
     def __add_metric_data(self, other: MetricData):
@@ -178,6 +191,7 @@ class MetricDataCollection(JSONAble):
 
     def set_timestamp(self, timestamp: float) -> 'MetricDataCollection':
         """Assign every child this timestamp and return self"""
+        self._copy_values()
         for child in self.values:
             child.add_timestamp(timestamp)
         return self
@@ -187,6 +201,7 @@ class MetricDataCollection(JSONAble):
 
     def set_value(self, value) -> 'MetricDataCollection':
         """Set all children to a particular value and return self. Most useful"""
+        self._copy_values()
         for child in self.values:
             child.value = value
         return self
-- 
2.43.0


From eee624964c9a4ea327565bbe8625950b367ea0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 130/191] fix: a MetricDataCollection made of another one is
 its copy

---
 satella/instrumentation/metrics/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 95fd0db..24b5c25 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -97,7 +97,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From f505ad02dd0ec8613280c0f2db7fb9cda9bab247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 131/191] fix: MetricData.from_json() does not alter its
 argument

---
 satella/instrumentation/metrics/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 24b5c25..7eb9ebb 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -59,6 +59,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
-- 
2.43.0


From 56359030c0dc430e4c81f513839e8c3d86d0d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 132/191] fix: line feeds in label values are escaped for
 Prometheus

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..2b3fe75 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From 0fd5c087ec140f7a74227730cf34f5b0ade6710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 133/191] fix: prometheus.exports_per_time counts exports in
 the documented periods

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index 2b3fe75..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
-- 
2.43.0


From 8f29d5e708a05a2b286cc69c15869736b36d9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:50 +0000
Subject: [PATCH 134/191] fix: a measured generator keeps the value that it
 returns

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From e07819fccfc0c87cf8c7dbcdbb6ae22d58c0b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 135/191] fix: a generator timed with measure() keeps the value
 that it returns

---
 satella/time/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 969073c..9e053ba 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -230,9 +230,9 @@ class measure:  # pylint: disable=invalid-name
                         if not s.create_stopped:
                             s.reset()
                             with s:
-                                yield from func(s, *args, **kwargs)
+                                return (yield from func(s, *args, **kwargs))
                         else:
-                            yield from func(s, *args, **kwargs)
+                            return (yield from func(s, *args, **kwargs))
 
                     return inner
                 else:
-- 
2.43.0


From 4d051bf7ca6ac583bcb6ab026f539e2e82845c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 136/191] fix: a generator decorated with log_exceptions keeps
 the value that it returns

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 31daf23..a713a84 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -100,7 +100,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except Exception as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From e1afa7dd4f59615c766dac202d53e0edb42b1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 137/191] fix: AutoflushFile accepts the documented modes a+
 and ab+

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..ae5e63b 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -455,7 +455,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From 60b8042df89ebfd3ef8a93c8e02b8ab93ba456d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 138/191] fix: AutoflushFile reads from the position that it
 has been left at

---
 satella/files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index ae5e63b..3fff9b1 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -502,12 +502,14 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
+            if self.__dict__['pointer'] is not None:
+                file.seek(self.__dict__['pointer'])
             ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
             self.__dict__['pointer'] = ptr
-- 
2.43.0


From 8bd6871ef3953ac1e8fbce8ae52e4614e2ac09c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 139/191] fix: split() of an absolute path does not hang

---
 satella/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index 3fff9b1..4b3b8a5 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,6 +215,8 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
+        if os.path.split(data[0])[0] == data[0]:
+            break  # this is the root directory
         data = list(os.path.split(data[0])) + data[1:]
     return data
 
-- 
2.43.0


From 34528ffd7d5f81e008c887bf2fe495524eac1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 140/191] fix: find_files applies the wildcard to the entire
 path in subdirectories as well

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 4b3b8a5..0a4ff8c 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -369,6 +369,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From fddbb1cb24a4479d0d8a89f90e558e987f64105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 141/191] fix: find_files does not take subdirectories for
 files, if told not to scan them

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 0a4ff8c..6404659 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -371,7 +371,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
                                   prefix_with=new_prefix,
                                   apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
-        else:
+        elif not os.path.isdir(os.path.join(path, filename)):
             if apply_wildcard_to_entire_path:
                 fn_path = _cond_join(prefix_with, filename)
             else:
-- 
2.43.0


From d191a88c29699cb182f523efc4c6d6ee0cc1ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:03 +0000
Subject: [PATCH 142/191] fix: AutoflushFile is positioned at the end of the
 file after writing

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 6404659..b231c25 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -544,6 +544,7 @@ class AutoflushFile(Proxy[io.FileIO]):
         """
         fle = self._open_file()
         val = fle.write(*args, **kwargs)
+        fle.flush()  # so that tell() takes into account that this has been appended
         self.__dict__['pointer'] = fle.tell()
         return val
 
-- 
2.43.0


From a85616cef558992921c82e98ff0674df072ec634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 143/191] fix: hang_until_sig is released by SIGINT, as
 documented, and restores each handler

---
 satella/os/signals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..3deb629 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -26,6 +26,8 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     """
     global end
     extra_signals = extra_signals or ()
+    # SIGTERM is handled separately. Each of the rest is to be saved and restored once.
+    extra_signals = {signal.SIGINT, *extra_signals} - {signal.SIGTERM}
 
     old_term = signal.getsignal(signal.SIGTERM)
     olds = []
-- 
2.43.0


From 1a22558570d1261ff0bd9f711f6df9e511176982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 144/191] fix: daemonize can be given the name of a group

---
 satella/os/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..c4d1119 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -66,7 +66,8 @@ def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            lookup = module.getgrnam if field_name == 'gr_gid' else module.getpwnam
+            no = getattr(lookup(no), field_name)
         osfun(no)
 
 
-- 
2.43.0


From 2d70666fb24d1a7ba21d8111235d877f39fee4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 145/191] fix: daemonize changes the group while it still has
 the privilege to

---
 satella/os/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index c4d1119..4c3407b 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -58,8 +58,9 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
+    # the group goes first, as changing the user drops the privilege to do that
     _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
 
 
 def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
-- 
2.43.0


From 44dc08e0bf7ccf08c0e60359491ae032b894ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 146/191] fix: whereis does not take directories for
 executables

---
 satella/os/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..e5c2255 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -48,6 +48,8 @@ def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
         with silence_excs(FileNotFoundError):
+            if not stat.S_ISREG(os.stat(path).st_mode):
+                continue
             if 'x' in stat.filemode(os.stat(path).st_mode):
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
-- 
2.43.0


From 54a90b2f40977da1a5d94c5f73e660d02932b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 147/191] fix: read_nowait reads while the process is running,
 so that the pipe does not fill up

---
 satella/processes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..e43a6c2 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From 9b141cd43a08eab7a22c0f78c6c5c2e07915baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 148/191] fix: call_and_return_stdout decodes characters that
 cross a boundary of a read

---
 satella/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/processes.py b/satella/processes.py
index e43a6c2..66041a9 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -82,7 +82,7 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     if encoding is None:
         result = b''.join(stdout_list)
     else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+        result = b''.join(stdout_list).decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From 967fb2108db7afe9f0dd8ac218db1b8ac9d251b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 149/191] fix: ResourceLocked raised by PIDFileLock has the
 documented attributes

---
 satella/os/pidlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..a00a902 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -67,7 +67,9 @@ class PIDFileLock:
                 return self.acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
+                exc = ResourceLocked(pid)
+                exc.pid, exc.is_alive = pid, True
+                raise exc
             else:
                 # does not exist
                 os.unlink(self.path)
-- 
2.43.0


From 2616e085a078aa5c806bf846f8107ccce02dd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:54 +0000
Subject: [PATCH 150/191] fix: at most one process holds a PIDFileLock

---
 satella/os/pidlock.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index a00a902..b196d0c 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -1,10 +1,32 @@
+import contextlib
 import os
 
 import psutil
 
+try:
+    import fcntl
+except ImportError:     # Windows
+    fcntl = None
+
 from satella.exceptions import ResourceLocked
 
 
+@contextlib.contextmanager
+def _no_other_process_at(path: str):
+    """
+    Makes sure that lock files in path's directory are not being acquired or released by others meanwhile
+    """
+    if fcntl is None:
+        yield
+        return
+    fd = os.open(os.path.dirname(path) or os.curdir, os.O_RDONLY)
+    try:
+        fcntl.flock(fd, fcntl.LOCK_EX)
+        yield
+    finally:
+        os.close(fd)
+
+
 class PIDFileLock:
     """
     Acquire a PID lock file.
@@ -45,7 +67,8 @@ class PIDFileLock:
         """
         if self.file_no is None:
             raise RuntimeError('lock not acquired')
-        os.unlink(self.path)
+        with _no_other_process_at(self.path):
+            os.unlink(self.path)
         self.file_no = None
 
     def acquire(self) -> None:
@@ -54,6 +77,10 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
+        with _no_other_process_at(self.path):
+            return self._acquire()
+
+    def _acquire(self) -> None:
         try:
             self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
         except (OSError, FileExistsError):
@@ -64,7 +91,7 @@ class PIDFileLock:
                 pid = int(data)
             except ValueError:
                 os.unlink(self.path)
-                return self.acquire()
+                return self._acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
                 exc = ResourceLocked(pid)
@@ -73,7 +100,7 @@ class PIDFileLock:
             else:
                 # does not exist
                 os.unlink(self.path)
-                return self.acquire()
+                return self._acquire()
 
         fd = os.fdopen(self.file_no, 'w')
         fd.write(str(os.getpid()) + '\n')
-- 
2.43.0


From c1c7a77a65499f97cfed35266195677589a98fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 151/191] fix: trace pickles can be dumped to nowhere

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..d270e89 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -67,7 +67,7 @@ class AsStream:
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
         elif self.mode == StreamType.MODE_DEVNULL:
-            self.o = DevNullFilelikeObject()
+            self.o = DevNullFilelikeObject(binary=not self.human_readable)
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
-- 
2.43.0


From e0cff4b8cda708ad8aa64e59e4b1117eae30d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 152/191] fix: DumpToFileHandler dumps the exception that it
 was given

---
 satella/exception_handling/dump_to_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index d270e89..6607139 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -3,13 +3,14 @@ from __future__ import print_function, absolute_import, division
 import enum
 import logging
 import os
+import traceback as traceback_
 import typing as tp
 import uuid
 from logging import Logger
 
 from satella.coding import silence_excs
 from satella.files import DevNullFilelikeObject
-from satella.instrumentation import Traceback
+from satella.instrumentation import Traceback, frame_from_traceback
 from .exception_handlers import BaseExceptionHandler
 
 AsStreamTypeAccept = tp.Union[str, tp.IO, None, Logger, tp.Tuple[Logger, int]]
@@ -107,7 +108,11 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            if traceback is None:
+                tb = Traceback()
+            else:  # there may be no exception in progress, as sys.excepthook is called after it's over
+                tb = Traceback(frame_from_traceback(traceback))
+                tb.formatted_traceback = ''.join(traceback_.format_exception(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
-- 
2.43.0


From 64d8fc21df0dcc53eaec5da8be7bde73da4dddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 153/191] fix: a stored value restored from JSON keeps its
 pickle

---
 satella/instrumentation/trace_back/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..cf86b97 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -115,9 +115,9 @@ class StoredVariableValue(JSONAble):
         sv.repr = x['repr']
         sv.type_ = x['type']
         sv.pickle_type = x['pickle_type']
+        sv.pickle = None
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
-- 
2.43.0


From febc404a3068a6afb88f2671fb63eabeb973ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:17 +0000
Subject: [PATCH 154/191] fix: a traceback can be made if the repr of a
 variable fails

---
 satella/instrumentation/trace_back/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index cf86b97..5664beb 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -137,7 +137,10 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        try:
+            self.repr = repr(value)  # type: str
+        except Exception as e:
+            self.repr = 'repr unavailable (due to locally raised %s)' % (type(e).__name__,)
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
-- 
2.43.0


From 2da40d82e8ae0c39fc1c0d4cb5665fe975bb6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:00 +0000
Subject: [PATCH 155/191] fix: a JSONAbleDataObject can be compared with
 anything

---
 satella/json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/json.py b/satella/json.py
index ac1286b..3af7545 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -145,7 +145,13 @@ class JSONAbleDataObject:
     >>> assert CultureContext.from_json(a.to_json) == a
     """
 
+    @classmethod
+    def _fields(cls) -> tp.List[str]:
+        return list(cls.__annotations__.keys())
+
     def __eq__(self, other) -> bool:
+        if not isinstance(other, JSONAbleDataObject) or set(self._fields()) != set(other._fields()):
+            return NotImplemented
         return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
 
     def __hash__(self) -> int:
-- 
2.43.0


From 5c6e81039f1119f0cb0f2ae0571e742718230862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:00 +0000
Subject: [PATCH 156/191] fix: JSONAbleDataObject has the fields that it
 inherits

---
 satella/json.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index 3af7545..e567d59 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -147,16 +147,19 @@ class JSONAbleDataObject:
 
     @classmethod
     def _fields(cls) -> tp.List[str]:
-        return list(cls.__annotations__.keys())
+        fields = {}     # the inherited ones come first
+        for base in reversed(cls.__mro__):
+            fields.update(base.__dict__.get('__annotations__', {}))
+        return list(fields)
 
     def __eq__(self, other) -> bool:
         if not isinstance(other, JSONAbleDataObject) or set(self._fields()) != set(other._fields()):
             return NotImplemented
-        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
+        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self._fields())
 
     def __hash__(self) -> int:
         hash_ = 0
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._fields():
             hash_ ^= hash(getattr(self, annotation))
         return hash_
 
@@ -164,7 +167,7 @@ class JSONAbleDataObject:
         """
         :raises ValueError: a non-default value was not provided
         """
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._fields():
             try:
                 annot_val = kwargs.pop(annotation)
                 setattr(self, annotation, annot_val)
@@ -175,7 +178,7 @@ class JSONAbleDataObject:
     def to_json(self) -> tp.Dict:
         """Convert self to JSONable value"""
         result = {}
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._fields():
             result[annotation] = getattr(self, annotation)
         return result
 
-- 
2.43.0


From aaa091997722ee91ff23f70257dbaef6f6c442c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:00 +0000
Subject: [PATCH 157/191] fix: JSON files are UTF-8 no matter what the locale
 is

---
 satella/json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index e567d59..b809e9d 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -80,7 +80,7 @@ def write_json_to_file(path: str, value: JSONAble, **kwargs) -> None:
     """
     if kwargs:
         warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
-    with open(path, 'w') as f_out:
+    with open(path, 'w', encoding='utf-8') as f_out:
         f_out.write(JSONEncoder().encode(value))
 
 
@@ -113,10 +113,10 @@ def read_json_from_file(path: str) -> JSONAble:
     """
     try:
         import ujson
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             v = ujson.load(f_in)
     except ImportError:
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             try:
                 v = json.load(f_in)
             except json.decoder.JSONDecodeError as e:
-- 
2.43.0


From 5dd6114ae81701d78d5eecb84d75791a33f23adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:37 +0000
Subject: [PATCH 158/191] fix: JSONEncoder encodes objects whose __slots__ is a
 string

---
 satella/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/json.py b/satella/json.py
index b809e9d..ec079bf 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -52,7 +52,10 @@ class JSONEncoder(json.JSONEncoder):
                         v[k] = self.default(val)
                 except AttributeError:  # o has no attribute '__dict__', try with slots
                     try:
-                        for slot in o.__slots__:
+                        slots = o.__slots__
+                        if isinstance(slots, str):      # a single slot
+                            slots = slots,
+                        for slot in slots:
                             v[slot] = self.default(getattr(o, slot))
                     except AttributeError:  # it doesn't have __slots__ either?
                         v = '<an instance of %s>' % (o.__class__.__name__,)
-- 
2.43.0


From 9eaefb9881d9b2f5a550872e08bbd0c262d2b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:37 +0000
Subject: [PATCH 159/191] fix: JSONEncoder encodes inherited slots

---
 satella/json.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index ec079bf..e1e6c7f 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -52,11 +52,13 @@ class JSONEncoder(json.JSONEncoder):
                         v[k] = self.default(val)
                 except AttributeError:  # o has no attribute '__dict__', try with slots
                     try:
-                        slots = o.__slots__
-                        if isinstance(slots, str):      # a single slot
-                            slots = slots,
-                        for slot in slots:
-                            v[slot] = self.default(getattr(o, slot))
+                        o.__slots__     # raises AttributeError if there is none
+                        for cls in reversed(type(o).__mro__):
+                            slots = cls.__dict__.get('__slots__', ())
+                            if isinstance(slots, str):      # a single slot
+                                slots = slots,
+                            for slot in slots:
+                                v[slot] = self.default(getattr(o, slot))
                     except AttributeError:  # it doesn't have __slots__ either?
                         v = '<an instance of %s>' % (o.__class__.__name__,)
         return v
-- 
2.43.0


From c19a61fba6c5d96109f7e504379509c68c7891ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:37 +0000
Subject: [PATCH 160/191] fix: JSONEncoder skips slots that are not set

---
 satella/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/json.py b/satella/json.py
index e1e6c7f..7b2cb81 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -58,7 +58,8 @@ class JSONEncoder(json.JSONEncoder):
                             if isinstance(slots, str):      # a single slot
                                 slots = slots,
                             for slot in slots:
-                                v[slot] = self.default(getattr(o, slot))
+                                if hasattr(o, slot):
+                                    v[slot] = self.default(getattr(o, slot))
                     except AttributeError:  # it doesn't have __slots__ either?
                         v = '<an instance of %s>' % (o.__class__.__name__,)
         return v
-- 
2.43.0


From bb04c2ea3289f30ad641e1ac82a30bd6b068c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:33 +0000
Subject: [PATCH 161/191] fix: Subqueue can be examined while other threads add
 queues to it

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From b683a79cfd9627d5670ba023c841e30614f9fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 162/191] fix: trace_future attaches the exception of the
 future, and finishes the span of a cancelled one

---
 satella/opentracing/trace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..3788067 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,8 +1,7 @@
 import copy
-import sys
 import typing as tp
 import warnings
-from concurrent.futures import Future
+from concurrent.futures import CancelledError, Future
 
 from satella.coding.decorators import wraps
 from ..cassandra.common import ResponseFuture
@@ -83,11 +82,13 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
+        try:
+            exc = fut.exception()
+        except CancelledError:
+            exc = None
         if exc is not None:
             # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
+            Span._on_error(span, type(exc), exc, exc.__traceback__)
         span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From 3903f1fedcbc06215d5497f7bbff33a76f22ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 163/191] fix: trace_exception logs exceptions without a
 traceback, and accepts a limit of zero

---
 satella/opentracing/exceptions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/satella/opentracing/exceptions.py b/satella/opentracing/exceptions.py
index 89eed5c..131a3bf 100644
--- a/satella/opentracing/exceptions.py
+++ b/satella/opentracing/exceptions.py
@@ -37,14 +37,19 @@ def trace_exception(span: tp.Optional[Span], exc_type: tp.Optional[ExceptionClas
     if span is None:
         return
 
-    max_tb_length = max_tb_length or max_traceback_length
+    if max_tb_length is None:
+        max_tb_length = max_traceback_length
 
     if exc_type is None:
         exc_type, exc_val, exc_tb = sys.exc_info()
         if exc_type is None:
             return
 
-    tb = Traceback(exc_tb.tb_frame).pretty_format()
+    if exc_tb is None:
+        exc_tb = getattr(exc_val, '__traceback__', None)
+
+    # an exception that was never raised has no traceback
+    tb = '' if exc_tb is None else Traceback(exc_tb.tb_frame).pretty_format()
     if len(tb) > max_tb_length:
         tb = tb[:max_tb_length]
 
-- 
2.43.0


From 01f381ff0899accb162a8dba18295816946a1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 164/191] fix: futures of functions called in other threads
 complete also if these exit

---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..d7d7ec9 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 0085d97..93ad6d6 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From 6fdb69b4b2d208187ce12666eeebb245d91f91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 165/191] fix: import_from imports packages that have a
 namesake among the top level ones

---
 satella/imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/imports.py b/satella/imports.py
index b129afa..6c9189f 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -48,7 +48,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :param skip_not_having_all: skip module's not having an __all__ entry
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
-    for importer, modname, is_pkg in pkgutil.walk_packages(path, onerror=lambda x: None):
+    for importer, modname, is_pkg in pkgutil.iter_modules(path):
         if recursive and is_pkg:
             if modname.startswith('_') and skip_single_underscores:
                 continue
-- 
2.43.0


From f99bbca7d4690e562cee042a144779a6011bf968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 166/191] fix: import_from imports packages from each directory
 of the path

---
 satella/imports.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/imports.py b/satella/imports.py
index 6c9189f..c1cfa2e 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -1,5 +1,4 @@
 import importlib
-import os
 import pkgutil
 import typing as tp
 import warnings
@@ -61,7 +60,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
                 mod_all = []
                 if create_all:
                     module.__all__ = mod_all
-            import_from([os.path.join(path[0], modname)], package_prefix + '.' + modname, mod_all,
+            import_from(module.__path__, package_prefix + '.' + modname, mod_all,
                         module.__dict__, recursive=recursive,
                         fail_on_attributerror=fail_on_attributerror, create_all=create_all,
                         skip_not_having_all=skip_not_having_all,
-- 
2.43.0


From cb084bf0fcdbd75d6ad5479878eb13dba8207504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 167/191] fix: import_from skips modules as it was told to, not
 only packages

---
 satella/imports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/imports.py b/satella/imports.py
index c1cfa2e..4ca6de7 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -69,10 +69,14 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
             if modname not in all_:
                 all_.append(modname)
         elif not is_pkg:
+            if modname.startswith('_') and skip_single_underscores:
+                continue
             module = importlib.import_module(package_prefix + '.' + modname)
             try:
                 package_ref = module.__all__
             except AttributeError:
+                if skip_not_having_all:
+                    continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
                 package_ref = dir(module)
-- 
2.43.0


From b494e948267821ac11797ad4a35d743d96385bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 168/191] fix: chain() does not swallow a TypeError raised by
 what it iterates over

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index c30a952..ee1c340 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From 7ef979b55421df75d8b0e15ca9c391e733b5b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 169/191] fix: SelfClosingGenerator.send() returns what was
 yielded, close() does not silence TypeErrors of the generator

---
 satella/coding/iterators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index ee1c340..6aa0659 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -1,6 +1,5 @@
 import typing as tp
 
-from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import NoArgCallable
 
 
@@ -61,8 +60,12 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        try:
+            return self.generator.send(obj)
+        except StopIteration:
+            self.stopped = True
+            raise
 
     def __next__(self):
         try:
@@ -81,7 +84,7 @@ class SelfClosingGenerator:
     def close(self) -> None:
         if not self.stopped:
             # we might get a generator-generating function as an argument
-            with silence_excs(TypeError):
+            if hasattr(type(self.generator), '__next__'):
                 exhaust(self.generator)
 
             self.stopped = True
-- 
2.43.0


From d3238e5eab8b4b57969dc3e0b4a692e4836c1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 170/191] fix: RunActionAfterGeneratorCompletes runs the action
 once, no matter which method made the generator complete

---
 satella/coding/generators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..812bbfb 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,22 +31,26 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self.__advance(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self.__advance(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
+        return self.__advance(self.generator.__next__)
+
+    def __advance(self, method, *args):
         try:
-            return self.generator.__next__()
+            return method(*args)
         except StopIteration:
             if not self.closed:
+                self.closed = True  # it completes only once
                 self.action_to_run(*self.args, **self.kwargs)
             raise
 
-- 
2.43.0


From cd7093f9b979d377f9d6a642ccda67dc154ac470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 171/191] fix: chain_callables works with methods, does not
 call the second callable again on its TypeError

---
 satella/coding/misc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index d5a7373..2fac75f 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -163,16 +163,17 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
     :return: result of callable2
     """
 
+    def takes_no_arguments() -> bool:
+        try:
+            sig = signature(callable2)
+        except (TypeError, ValueError):
+            return False  # not known, eg. a builtin
+        return all(param.kind in (Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD)
+                   for param in sig.parameters.values())
+
     def inner(*args, **kwargs):
         res = callable1(*args, **kwargs)
-        try:
-            res = callable2(res)
-        except TypeError as e:
-            if 'positional arguments but' in e.args[0] and 'was given' in e.args[0] and 'takes' in e.args[0]:
-                res = callable2()
-            else:
-                raise
-        return res
+        return callable2() if takes_no_arguments() else callable2(res)
 
     return inner
 
-- 
2.43.0


From e5d840e9728d993cd86add14a4efddba834d8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 172/191] fix: threads waiting on an ExponentialBackoff do not
 fail nor forget failures when its status changes

---
 satella/time/backoff.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 5f732e9..84c9af4 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -89,15 +89,11 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        until = self.unavailable_until  # another thread might change it
+        if until is None:
             return None
-        else:
-            t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
-                return None
-            else:
-                return self.unavailable_until - t
+        t = time.monotonic()
+        return None if t > until else until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -105,13 +101,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From c59047146dc60357e51fee43f6413d2f39e8982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 173/191] fix: ExponentialBackoff.wait_until_available honours
 its timeout, does not miss a success

---
 satella/time/backoff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 84c9af4..bb47456 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -79,13 +79,16 @@ class ExponentialBackoff:
             WouldWaitMore will be raised
         :raises WouldWaitMore: waited for timeout and service still was not healthy
         """
-        with measure(timeout=timeout) as m:
-            while not m.timeouted:
+        with measure(timeout=timeout) as m, self.condition:
+            while True:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if m.timeouted:
+                    raise WouldWaitMore('timeouted while waiting for service to become healthy')
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
-            raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-- 
2.43.0


From 81501dcccd748214aa404addff40c2db5c32119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 174/191] fix: a percentile of the CPU profile requested while
 it is being rebuilt does not raise IndexError

---
 satella/instrumentation/cpu_time/collector.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..8ec53ce 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -43,8 +43,7 @@ class _CPUProfileBuilderThread(SingleStartThread):
         self.data = []
         self.process = psutil.Process(os.getpid())
         self.percentiles_requested = list(percentiles_requested)
-        self.percentile_values = []
-        self.percentiles_regenerated = False
+        self.percentile_values = {}  # percent => value
         self.started = False
         self.own_load_average = collections.deque()  # typing: tuple[float, pCPUtimes]
 
@@ -85,14 +84,13 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def request_percentile(self, percent: float) -> None:
         if percent not in self.percentiles_requested:
             self.percentiles_requested.append(percent)
-            self.percentiles_regenerated = False
 
     def percentile(self, percent: float) -> float:
         if not self.data:
             return 0
-        if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
-        else:
+        try:
+            return self.percentile_values[percent]
+        except KeyError:
             return percentile(self.data, percent)
 
     def is_done(self) -> bool:
@@ -105,12 +103,11 @@ class _CPUProfileBuilderThread(SingleStartThread):
         for _ in range(int(self.window_size)):
             time.sleep(1)
             data.append(calculate_occupancy_factor())
-        percentiles = []
+        percentiles = {}
         data.sort()
         for percent in self.percentiles_requested:
-            percentiles.append(percentile(data, percent))
+            percentiles[percent] = percentile(data, percent)
         self.percentile_values = percentiles
-        self.percentiles_regenerated = True
         self.data = data
 
     @repeat_forever
-- 
2.43.0


From 5894a75bd02cbf552aee9df0a06f522b6d5d0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 175/191] fix: dump_memory_on continues past an object that
 cannot be printed

---
 satella/instrumentation/memory/dump_frames_on.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/dump_frames_on.py b/satella/instrumentation/memory/dump_frames_on.py
index 965f93e..d0a9dee 100644
--- a/satella/instrumentation/memory/dump_frames_on.py
+++ b/satella/instrumentation/memory/dump_frames_on.py
@@ -31,7 +31,11 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         else:
             top_scores[typ] = size
             instances[typ] = 1
-        output.write('object %s type %s size %s bytes\n' % (repr(obj), typ, size))
+        try:
+            representation = repr(obj)
+        except Exception as e:  # pylint: disable=broad-except
+            representation = '<unprintable: %s>' % (type(e).__name__,)
+        output.write('object %s type %s size %s bytes\n' % (representation, typ, size))
 
     output.write('----------------------------------\n')
     output.write('Memory usage scores: \n')
-- 
2.43.0


From affbf350ba2634d3f8dd73bc17a0709c354d9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 176/191] fix: ExclusiveWritebackCache used by several threads
 does not lose or resurrect values

---
 .../dictionaries/writeback_cache.py           | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..9e5fef2 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -27,7 +27,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'deletions')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -49,6 +49,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        self.deletions = 0
 
     def get_queue_length(self) -> int:
         """
@@ -86,38 +87,42 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
 
     def __getitem__(self, item: K) -> V:
         self._operate()
-        if item not in self.in_cache:
-            try:
-                value = self.executor.submit(self.read_method, item).result()
+        with self.cache_lock:
+            if item in self.in_cache:
+                return self.cache[item]     # raises KeyError
+            deletions = self.deletions
+
+        try:
+            value = self.executor.submit(self.read_method, item).result()
+        except KeyError:
+            if self.store_key_errors:
                 with self.cache_lock:
                     self.in_cache.add(item)
-                    self.cache[item] = value
-                return value
-            except KeyError:
-                if self.store_key_errors:
-                    with self.cache_lock:
-                        self.in_cache.add(item)
-                raise
-        else:
-            if item not in self.cache and self.store_key_errors:
-                raise KeyError()
-            else:
-                return self.cache[item]
+            raise
+
+        with self.cache_lock:
+            if item in self.in_cache:   # it was written or read by another thread in the meantime
+                return self.cache[item]     # raises KeyError
+            if deletions == self.deletions:
+                self.in_cache.add(item)
+                self.cache[item] = value
+        return value
 
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            with silence_excs(KeyError):
+                del self.cache[key]
+            self.deletions += 1
+            self.executor.submit(self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self.executor.submit(self.write_method, key, value)
         self._operate()
-- 
2.43.0


From fbff276ae796ceee9277e31fc44fbec4d9b1bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 177/191] fix: ExclusiveWritebackCache.sync() honours its
 timeout while writes are queued

---
 .../structures/dictionaries/writeback_cache.py    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 9e5fef2..a00a283 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -6,6 +6,8 @@ from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
+from satella.time.measure import measure
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -70,11 +72,14 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
-
-        def fix():
-            return
+        with measure(timeout=timeout) as measurement:
+            while self.get_queue_length() > 0:
+                if timeout is not None and measurement() > timeout:
+                    raise WouldWaitMore('timeout exceeded')
+                time.sleep(0.1)
+
+            if timeout is not None:
+                timeout = max(0, timeout - measurement())
 
         sync_threadpool(self.executor, max_wait=timeout)
 
-- 
2.43.0


From 5ffc9fcfcefdf764f3be0893687f3919e997a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 178/191] fix: copies of time-based heaps keep their contents
 and clock

---
 satella/coding/structures/heaps/time.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 7a01afa..0899b82 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -46,6 +47,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.copy(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.deepcopy(self.data, memo=memo)
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -186,6 +197,18 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.copy(self.data)
+        heap.item_to_timestamp = copy.copy(self.item_to_timestamp)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.deepcopy(self.data, memo=memo)
+        heap.item_to_timestamp = {item: ts for ts, item in heap.data}
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
-- 
2.43.0


From e25305d60d528abd1e135666250e6ba533909ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 179/191] fix: time-based heaps accept items that cannot be
 ordered, under equal timestamps

---
 satella/coding/structures/heaps/time.py | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 0899b82..6e3c1b0 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -8,6 +8,18 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
+class _Entry(tuple):
+    """A pair of (timestamp, item), ordered by the timestamp alone, as items need not be orderable"""
+    __slots__ = ()
+
+    def __lt__(self, other) -> bool:
+        return self[0] < other[0]
+
+
+def _mapping_to_entries(map_fun):
+    return None if map_fun is None else lambda entry: _Entry(map_fun(entry))
+
+
 class TimeBasedHeap(Heap):
     """
     A heap of items sorted by timestamps.
@@ -93,6 +105,16 @@ class TimeBasedHeap(Heap):
                 return obj
         raise ValueError('Element not found!')
 
+    def push(self, item: tp.Tuple[Number, T], *args) -> None:
+        super().push(_Entry((item, *args) if args else item))
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        super().push_many(_Entry(item) for item in items)
+
+    def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
+                   map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
+        super().filter_map(filter_fun=filter_fun, map_fun=_mapping_to_entries(map_fun))
+
     def put(self, timestamp_or_value: tp.Union[T, Number],
             value: tp.Optional[T] = None) -> None:
         """
@@ -244,7 +266,7 @@ class TimeBasedSetHeap(Heap):
         if item[1] in self.item_to_timestamp:
             self.pop_item(item[1])
 
-        super().push(item)
+        super().push(_Entry(item))
         self.item_to_timestamp[item[1]] = item[0]
 
     def pop(self) -> tp.Tuple[Number, T]:
@@ -289,7 +311,7 @@ class TimeBasedSetHeap(Heap):
 
     def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
                    map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
-        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        super().filter_map(filter_fun=filter_fun, map_fun=_mapping_to_entries(map_fun))
         entries = self.data
         self.data, self.item_to_timestamp = [], {}
         for entry in entries:
-- 
2.43.0


From ed30d5b20313b5fb9af8bda723c7b0779603fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 180/191] fix: list methods inherited by heaps keep their
 invariants

---
 satella/coding/structures/heaps/base.py | 27 +++++++++++++++++++++++++
 satella/coding/structures/heaps/time.py |  8 ++++++++
 2 files changed, 35 insertions(+)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 1ca0ff2..3645c77 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -63,6 +63,29 @@ class Heap(collections.UserList, tp.Generic[T]):
             item = (item, *args)
         heapq.heappush(self.data, item)
 
+    def append(self, item: T) -> None:
+        """Same as :meth:`Heap.push`"""
+        self.push(item)
+
+    def extend(self, items: tp.Iterable[T]) -> None:
+        """Same as :meth:`Heap.push_many`"""
+        self.push_many(list(items))
+
+    def __iadd__(self, items: tp.Iterable[T]) -> 'Heap':
+        self.push_many(list(items))
+        return self
+
+    def remove(self, item: T) -> None:
+        """
+        Remove an item, maintaining the heap invariant
+
+        :raise ValueError: element not found
+        """
+        self.pop_item(item)
+
+    def copy(self) -> 'Heap':
+        return copy.copy(self)
+
     def __deepcopy__(self, memo={}) -> 'Heap':
         return self.__class__(copy.deepcopy(self.data, memo=memo))
 
@@ -166,6 +189,10 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def clear(self) -> None:
+        super().clear()
+        self.set.clear()
+
     def pop_item(self, item: T) -> T:
         item = super().pop_item(item)  # raises: ValueError
         self.set.remove(item)
diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 6e3c1b0..cc696ff 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -269,6 +269,14 @@ class TimeBasedSetHeap(Heap):
         super().push(_Entry(item))
         self.item_to_timestamp[item[1]] = item[0]
 
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def clear(self) -> None:
+        super().clear()
+        self.item_to_timestamp.clear()
+
     def pop(self) -> tp.Tuple[Number, T]:
         item = super().pop()
         del self.item_to_timestamp[item[1]]
-- 
2.43.0


From d0ce67ec555d97b2629db75c9a02cd31b585f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 181/191] fix: ExpiringEntryDict.get_timestamp() is when the
 entry was inserted, KeyError if it has expired

---
 satella/coding/structures/dictionaries/expiring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 1dabac0..0ef8a02 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -194,7 +194,9 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
         :raises KeyError: key not found in the dictionary
         """
-        return self.key_to_expiration_time.item_to_timestamp[key]
+        if key not in self:
+            raise KeyError(key)
+        return self.key_to_expiration_time.get_timestamp(key) - self.expiration_timeout
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-- 
2.43.0


From 27284c96f0925ea9cff44d9d0b5c583395026575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 182/191] fix: copies of a DictionaryView work the way the
 original does

---
 satella/coding/structures/dictionaries/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index b8c11b7..bf5be31 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -232,10 +232,13 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*self.dictionaries, propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From c5146e706e9ba730dfc4f2440f48fbf751c72a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 183/191] fix: repr() of a tainted value does not raise
 TypeError

---
 satella/debug/tainting/tainteds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..373f8af 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -79,8 +79,7 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
-    def __repr__(self) -> str:
+    def __repr__(self) -> str:  # it must be a str otherwise Python will complain
         return '%s TAINTED' % str(self.__v)
 
     @might_accept_tainted(taint_result=True)
-- 
2.43.0


From 4956074584b0e256f953168dc8b91b4220e44247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 184/191] fix: attributes of a tainted object can be set

---
 satella/debug/tainting/tainteds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 373f8af..fba79f5 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -63,7 +63,7 @@ class TaintedObject(tp.Generic[T]):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
-- 
2.43.0


From 3fdcb9346655c854c83878c4f3542d9ffebbab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 185/191] fix: the result of != on a tainted value is tainted

---
 satella/debug/tainting/tainteds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index fba79f5..1f4d077 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -108,6 +108,10 @@ class TaintedObject(tp.Generic[T]):
     def __eq__(self, other) -> bool:
         return self.__v == other
 
+    @might_accept_tainted(taint_result=True)
+    def __ne__(self, other) -> bool:
+        return self.__v != other
+
     @might_accept_tainted(taint_result=True)
     def __gt__(self, other) -> bool:
         return self.__v > other
-- 
2.43.0


From 0d448dbafff48e7d54babebf319f246c441b90f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 186/191] fix: a tainting session refused because of another
 one is not enabled

---
 satella/debug/tainting/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/environment.py b/satella/debug/tainting/environment.py
index fb4eb32..7d849c6 100644
--- a/satella/debug/tainting/environment.py
+++ b/satella/debug/tainting/environment.py
@@ -59,10 +59,10 @@ class TaintingEnvironment:
 
         :raises RuntimeError: there is already a tainting session in progress
         """
-        self.enabled = True
         global local
         if hasattr(local, 'satella_tainting'):
             raise RuntimeError('Other tainting session in progress')
+        self.enabled = True
         local.satella_tainting = self
         return self
 
-- 
2.43.0


From d16ceb54140b489780c116edf068c795f53dd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 187/191] fix: overloaded functions can differ in the number of
 arguments, and have parameters without a type

---
 satella/coding/overloading.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index fb8fdbe..f0fa771 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -29,6 +29,15 @@ class class_or_instancemethod(classmethod):
         return descr_get(instance, type_)
 
 
+def _accepted_types(parameter: inspect.Parameter) -> tp.Tuple[type, ...]:
+    """Types that a parameter accepts. A not annotated one accepts everything"""
+    if parameter.annotation is inspect.Parameter.empty:
+        return object,
+    if isinstance(parameter.annotation, tuple):
+        return parameter.annotation
+    return parameter.annotation,
+
+
 class TypeSignature(inspect.Signature):
     """
     A type signature.
@@ -84,10 +93,13 @@ class TypeSignature(inspect.Signature):
         """
         Does this invocation match this signature?
         """
-        bound_args = self.bind(*args, **kwargs)
+        try:
+            bound_args = self.bind(*args, **kwargs)
+        except TypeError:
+            return False    # a different number of arguments
         bound_args.apply_defaults()
         for param_name, param_value in bound_args.arguments.items():
-            if not isinstance(param_value, self._parameters[param_name].annotation):
+            if not isinstance(param_value, _accepted_types(self._parameters[param_name])):
                 return False
         return True
 
-- 
2.43.0


From 81204ce03cced090dea89c05974bcfbcef60ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 188/191] fix: the most specific of the overloaded functions is
 called

---
 satella/coding/overloading.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index f0fa771..4c58914 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -75,16 +75,10 @@ class TypeSignature(inspect.Signature):
 
     def is_more_generic_than(self, b: TypeSignature) -> bool:
         """Is this type signature more generic than an other?"""
-        if self == {}:
-            for key in self:
-                key1 = self[key]
-                key2 = b.get(key, None)
-                if key2 is None:
-                    return key2 == {}
-
-                if key2.is_more_generic_than(key1):
-                    return False
-        return True
+        mine = [_accepted_types(param) for param in self._parameters.values()]
+        others = [_accepted_types(param) for param in b._parameters.values()]
+        return mine != others and all(issubclass(type_, accepted)
+                                      for accepted, types in zip(mine, others) for type_ in types)
 
     def __lt__(self, other: TypeSignature) -> bool:
         return self.is_more_generic_than(other)
@@ -159,12 +153,10 @@ class overload:
 
         :raises TypeError: no type signature given
         """
-        matching = []
+        best = None
         for sign, fun in self.type_signatures_to_functions.items():
-            if sign.matches(*args, **kwargs):
-                matching.append((sign, fun))
-        matching.sort()     # This sorting should result in most precise class at the end of the list
-        if not matching:
+            if sign.matches(*args, **kwargs) and (best is None or best[0].is_more_generic_than(sign)):
+                best = sign, fun
+        if best is None:
             raise TypeError('No matching entries!')
-        else:
-            return matching[-1][1](*args, **kwargs)  # call the most specific function you could find
+        return best[1](*args, **kwargs)  # call the most specific function you could find
-- 
2.43.0


From 8842e82b0da1867288f08b174baa74aa25dfcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 189/191] fix: a chained function returning two arguments
 passes them both on

---
 satella/coding/decorators/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index b1789f0..27f6dc4 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -55,7 +55,8 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], tuple) and \
+                    isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
-- 
2.43.0


From fb83093f1f272a796fabfcdaa946b26159150245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 190/191] fix: an exception raised while processing an element
 is not taken for an empty queue

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..15c0730 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+                return
+            return fun(self, item)
 
         return inner
 
-- 
2.43.0


From 2db1788e8636b45e2027fa2babdb6561d6f1b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 191/191] fix: a KeyError raised while mapping a value is not
 taken for a missing key

---
 satella/coding/transforms/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index b87b5a0..7b8b44d 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -44,12 +44,13 @@ def unpack_dict(dct: tp.Dict[K, V], *args: K,
     """
     for key in args:
         try:
-            yield map_through(dct[key])
+            value = dct[key]
         except KeyError:
-            if not raise_if_not_found:
-                yield None
-            else:
+            if raise_if_not_found:
                 raise
+            yield None
+        else:
+            yield map_through(value)
 
 
 def none_if_false(y: tp.Any) -> tp.Optional[tp.Any]:
-- 
2.43.0

