From a420f9460bbb4d5acab24573481042f968c4d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:30 +0000
Subject: [PATCH 1/7] fix: leave a sorted list intact when a bulk update cannot
 be sorted

---
 src/sortedcontainers/sortedlist.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..99312e3 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,9 +277,10 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
-                values.sort()
+                merged = reduce(iadd, _lists, [])
+                merged.extend(values)
+                merged.sort()
+                values = merged
                 self._clear()
             else:
                 _add = self.add
@@ -1777,9 +1778,10 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
-                values.sort(key=self._key)
+                merged = reduce(iadd, _lists, [])
+                merged.extend(values)
+                merged.sort(key=self._key)
+                values = merged
                 self._clear()
             else:
                 _add = self.add
-- 
2.43.0


From 7a97ca6184a6f670c24f0f70b4a1ced2ab4152a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:47 +0000
Subject: [PATCH 2/7] fix: keep the key of a sorted-key list multiplied from
 the left

---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 99312e3..eeb2b0b 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2429,6 +2429,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 8dc6513af2dd0b0cb864cbc24ce9ef8b7c223157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 3/7] fix: list the key before storing it in
 SortedDict.setdefault

An unorderable key was left in the dict without being in the list of keys.
---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From 7f4de3f2ede03b5d3ebacab3e7f9d7b9f90e29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 4/7] fix: leave a sorted dict intact when an update cannot be
 sorted

The dict part was updated (and the list of keys cleared) before sorting the
keys, so a key that cannot be ordered left the two out of step.
---
 src/sortedcontainers/sorteddict.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index c6d0422..1682fe0 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -497,20 +497,22 @@ class SortedDict(dict):
         :param kwargs: keyword arguments mapping
 
         """
-        if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
-            return
-
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
             pairs = args[0]
         else:
             pairs = dict(*args, **kwargs)
 
+        if not self:
+            self._list_update(pairs)
+            dict.update(self, pairs)
+            return
+
         if (10 * len(pairs)) > len(self):
+            new_keys = [key for key in pairs if key not in self]
+            keys = sorted(chain(self._list, new_keys), key=self._key)
             dict.update(self, pairs)
             self._list_clear()
-            self._list_update(dict.__iter__(self))
+            self._list_update(keys)
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From 75df576b8c72b7126bd46a215b5911ccb14703ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 5/7] fix: leave a sorted set intact when a value to add cannot
 be ordered

The value stayed a member without being in the list of values.
---
 src/sortedcontainers/sortedset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..5121d62 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.discard(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From 29496e5572b18a7cd4ac23dcfaac3a0f0b261b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 6/7] fix: keep class and key in the reflected difference of a
 sorted set

__rsub__ came from collections.abc.Set, which drops the key function.
---
 src/sortedcontainers/sortedset.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 5121d62..3a2c726 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -476,6 +476,18 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        """Return the difference of `other` and this set as a new sorted set.
+
+        ``ss.__rsub__(other)`` <==> ``other - ss``
+
+        :param other: `other` iterable
+        :return: new sorted set
+
+        """
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From 6e63830abe04fc61ae98ee0191e6405e45f6bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 7/7] fix: leave a sorted set intact when a bulk update cannot
 be sorted

Sort the new content before touching the set and the list.
---
 src/sortedcontainers/sortedset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 3a2c726..8a68eac 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -615,9 +615,12 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.symmetric_difference_update(other)
+        values = _set.symmetric_difference(other)
+        values = sorted(values, key=self._key)
+        _set.clear()
+        _set.update(values)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -663,9 +666,10 @@ class SortedSet(MutableSet, Sequence):
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
             _list = self._list
+            values = sorted(_set.union(values), key=self._key)
             _set.update(values)
             _list.clear()
-            _list.update(_set)
+            _list.update(values)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0

