From d7a0d3e713a8c6081d07c264d7c013d4c90a2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:11 +0000
Subject: [PATCH 01/30] fix: release the locks of a collection when loading its
 data raises

The context manager used by all mutators acquired the collection lock (and
the buffer lock) and then loaded. When the load raised, for example on a
corrupt file, the locks stayed held forever and every other thread blocked.
---
 synced_collections/buffers/file_buffered_collection.py | 8 +++++++-
 synced_collections/data_types/synced_collection.py     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..e414606 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -11,6 +11,7 @@ specific components are abstract and must be implemented by child classes.
 
 import errno
 import os
+import sys
 from abc import abstractmethod
 from threading import RLock
 from typing import Dict, Tuple, Union
@@ -63,7 +64,12 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        try:
+            super().__enter__()
+        except BaseException:
+            # __exit__ is not called if __enter__ raises.
+            self._collection._buffer_lock.__exit__(*sys.exc_info())
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..8323eb8 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -2,6 +2,7 @@
 # All rights reserved.
 # This software is licensed under the BSD 3-Clause License.
 """Implement the SyncedCollection class."""
+import sys
 from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Collection
@@ -41,7 +42,12 @@ class _LoadAndSave:
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
-        self._collection._load()
+        try:
+            self._collection._load()
+        except BaseException:
+            # __exit__ is not called if __enter__ raises.
+            self._collection._thread_lock.__exit__(*sys.exc_info())
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From 5b7e6fd920dbef6566988634e739b5884e0fe139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:11 +0000
Subject: [PATCH 02/30] fix: do not save when a mutating operation raised

A failed operation such as deleting a missing key still wrote to the backend,
creating the resource if it did not exist.
---
 synced_collections/data_types/synced_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 8323eb8..78d29c0 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -51,7 +51,9 @@ class _LoadAndSave:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # An operation that raised must leave the backend untouched.
+            if exc_type is None:
+                self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
 
-- 
2.43.0


From c12f181969b1719a763bbb5515328d5a0f948191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:11 +0000
Subject: [PATCH 03/30] fix: merge null and type-changing elements when
 updating in place

Merging new data into nested collections ignored an element whose value
changed from a container to None, and kept the old element when the new one
compared equal despite having another type (1, 1.0 and True).
---
 synced_collections/data_types/synced_dict.py | 16 +++++++++++-----
 synced_collections/data_types/synced_list.py | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..f6dec46 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,14 +141,20 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
+                        if new_value is existing:
                             continue
                         if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
-                            try:
-                                existing._update(new_value)
+                            # For elements, None is a value like any other.
+                            if new_value is not None:
+                                try:
+                                    existing._update(new_value)
+                                    continue
+                                except ValueError:
+                                    pass
+                        elif type(new_value) is type(existing):
+                            # Values of different types may compare equal.
+                            if new_value == existing:
                                 continue
-                            except ValueError:
-                                pass
 
                         # Fall through if the new value is not identical to the
                         # existing value and
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..51c7279 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -143,14 +143,20 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
                 for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
+                    if data[i] is self._data[i]:
                         continue
                     if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
-                        try:
-                            self._data[i]._update(data[i])
+                        # For elements, None is a value like any other.
+                        if data[i] is not None:
+                            try:
+                                self._data[i]._update(data[i])
+                                continue
+                            except ValueError:
+                                pass
+                    elif type(data[i]) is type(self._data[i]):
+                        # Values of different types may compare equal.
+                        if data[i] == self._data[i]:
                             continue
-                        except ValueError:
-                            pass
                     if not _validate:
                         self._validate(data[i])
                     self._data[i] = self._from_base(data[i], parent=self)
-- 
2.43.0


From 9e3dae49324343fd3b232e2a5a0d06c4e6dc4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:12 +0000
Subject: [PATCH 04/30] fix: compare synced lists with plain operands in the
 right direction

SyncedList.__lt__ evaluated '>' when the other operand was a plain list.
---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 51c7279..923279c 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -252,7 +252,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From aa4bc4ac27d8f2d605a5fbf5c0b4d54c503845e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:47 +0000
Subject: [PATCH 05/30] fix: load and lock for the whole of clear() and reset()

clear() and reset() changed the data before taking any lock, and on a nested
collection they took a lock unrelated to the root's resource and saved without
loading, discarding everything other handles had written in the meantime.
---
 .../data_types/synced_collection.py             | 17 +++++++++++++++--
 synced_collections/data_types/synced_dict.py    | 10 ++++------
 synced_collections/data_types/synced_list.py    | 10 ++++------
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 78d29c0..e1b5ca9 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -37,13 +37,15 @@ class _LoadAndSave:
     customize the behavior if needed (for instance, to introduce additional locks).
     """
 
-    def __init__(self, collection):
+    def __init__(self, collection, load=True):
         self._collection = collection
+        self._load = load
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
         try:
-            self._collection._load()
+            if self._load:
+                self._collection._load()
         except BaseException:
             # __exit__ is not called if __enter__ raises.
             self._collection._thread_lock.__exit__(*sys.exc_info())
@@ -476,6 +478,17 @@ class SyncedCollection(Collection):
         for validator in self._all_validators:
             validator(data)
 
+    @property
+    def _overwrite_and_save(self):
+        """Get a context for operations that discard the previous data of this object.
+
+        The previous data does not need to be loaded, except if this collection
+        is nested: then the save also writes the data surrounding it.
+        """
+        if self._root is None:
+            return self._LoadSaveType(self, load=False)
+        return self._load_and_save
+
     # The following methods share a common implementation for
     # all data structures and regardless of backend.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index f6dec46..250f0c0 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -196,9 +196,8 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            with self._overwrite_and_save:
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a mapping or None.".format(
@@ -233,9 +232,8 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
-            self._save()
+        with self._overwrite_and_save:
+            self._data = {}
 
     def update(self, other=None, **kwargs):  # noqa: D102
         if other is not None:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 923279c..a4cfb05 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -191,9 +191,8 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            with self._overwrite_and_save:
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
@@ -244,9 +243,8 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
-            self._save()
+        with self._overwrite_and_save:
+            self._data = []
 
     def __lt__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 6a5c0f66d8c49e90eb0a74afd88234bf6c856ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:47 +0000
Subject: [PATCH 06/30] fix: make list pop() and reverse() single operations

Both were inherited from MutableSequence, which composes them of several
locked operations, so concurrent writers could be interleaved with them.
---
 synced_collections/data_types/synced_list.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index a4cfb05..9015222 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -242,6 +242,17 @@ class SyncedList(SyncedCollection, MutableSequence):
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
+    # The mixin implementations of pop and reverse consist of multiple separate
+    # operations, between which other threads could modify the data.
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            ret = self._data.pop(index)
+        return ret
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
+
     def clear(self):  # noqa: D102
         with self._overwrite_and_save:
             self._data = []
-- 
2.43.0


From cf7da1600e50de3138f3415ebdcc92efc4cd4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:06 +0000
Subject: [PATCH 07/30] fix: hold the lock while reading

Reads reload the data and merge it into the tree shared with other threads,
and they suspend synchronization while doing so. Without the lock, a read next
to a write could make the writer save a tree lacking its own update, return a
half-merged state, or fail. Iterators and key views are detached for the same
reason.
---
 .../data_types/synced_collection.py           | 46 ++++++++++++-------
 synced_collections/data_types/synced_dict.py  | 16 +++----
 synced_collections/data_types/synced_list.py  |  5 +-
 3 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index e1b5ca9..e1e50ec 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -37,9 +37,10 @@ class _LoadAndSave:
     customize the behavior if needed (for instance, to introduce additional locks).
     """
 
-    def __init__(self, collection, load=True):
+    def __init__(self, collection, load=True, save=True):
         self._collection = collection
         self._load = load
+        self._save = save
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
@@ -54,7 +55,7 @@ class _LoadAndSave:
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
             # An operation that raised must leave the backend untouched.
-            if exc_type is None:
+            if self._save and exc_type is None:
                 self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
@@ -149,8 +150,9 @@ class SyncedCollection(Collection):
     Whether or not :class:`SyncedCollection` objects are thread-safe depends on the
     implementation of the backend. Thread-safety of SyncedCollection objects
     is predicated on backends providing an atomic write operation. All concrete
-    collection types use mutexes to guard against concurrent write operations,
-    while allowing read operations to happen freely. The validity of this mode
+    collection types use mutexes to guard against concurrent operations. Since
+    read operations update the data in memory to match the resource, they are
+    guarded in the same way as write operations. The validity of this mode
     of access depends on the write operations of a SyncedCollection being
     atomic, specifically the `:meth:`~._save_to_resource` method. Whether or not
     a particular subclass of :class:`SyncedCollection` is thread-safe should be
@@ -478,6 +480,16 @@ class SyncedCollection(Collection):
         for validator in self._all_validators:
             validator(data)
 
+    @property
+    def _load_only(self):
+        """Get a context for read operations.
+
+        Loading modifies the data in memory, so it must not be interleaved with
+        other operations.
+        """
+        root = self if self._root is None else self._root
+        return root._LoadSaveType(root, save=False)
+
     @property
     def _overwrite_and_save(self):
         """Get a context for operations that discard the previous data of this object.
@@ -493,20 +505,21 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._load_only:
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        with self._load_only:
+            # Iterate over a copy because other threads may modify the data.
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._load_only:
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -517,20 +530,19 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._load_only:
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        with self._load_only:
+            return repr(self._data)
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        with self._load_only:
+            return str(self._data)
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 250f0c0..6e75819 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -206,20 +206,20 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        with self._load_only:
+            return self._to_base().keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        with self._load_only:
+            return self._to_base().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        with self._load_only:
+            return self._to_base().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._load_only:
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 9015222..b9e5832 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -206,8 +206,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        with self._load_only:
+            # Iterate over a copy because other threads may modify the data.
+            return reversed(list(self._data))
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-- 
2.43.0


From b88a5cf043e3582293845ca79679db4b7940ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:23 +0000
Subject: [PATCH 08/30] fix: read synced arguments before locking the modified
 collection

An operation that stores a synced collection read that collection while
holding its own lock, so two threads storing two collections in each other
would deadlock. Resetting a collection to one of its own children lost data
because the child changed while it was being read.
---
 .../data_types/synced_collection.py           | 27 +++++++++++++++++++
 synced_collections/data_types/synced_dict.py  | 12 ++++++---
 synced_collections/data_types/synced_list.py  | 11 +++++---
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index e1e50ec..98fbacb 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -27,6 +27,33 @@ _collection_resolver = AbstractTypeResolver(
 )
 
 
+def _unsync(data):
+    """Replace all synced collections contained in data with copies of their contents.
+
+    Reading a synced collection requires locking it. Data passed to an operation
+    must therefore be read before that operation locks its own collection, since
+    otherwise two threads could each wait for the lock that the other one holds.
+
+    Parameters
+    ----------
+    data : Any
+        Data that may be or contain synced collections.
+
+    Returns
+    -------
+    Any
+        Equivalent data without any synced collections.
+
+    """
+    if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
+        return data()
+    elif type(data) is dict:
+        return {key: _unsync(value) for key, value in data.items()}
+    elif type(data) in (list, tuple):
+        return [_unsync(value) for value in data]
+    return data
+
+
 class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 6e75819..c726880 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -11,7 +11,7 @@ give a dict-like API to a synchronized data structure.
 from collections.abc import Mapping, MutableMapping
 
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsync
 
 # Identifies mappings, which are the base type for this class.
 _mapping_resolver = AbstractTypeResolver(
@@ -177,6 +177,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def __setitem__(self, key, value):
+        value = _unsync(value)
         self._validate({key: value})
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(value, parent=self)
@@ -196,6 +197,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
+            data = _unsync(data)
             with self._overwrite_and_save:
                 self._update(data)
         else:
@@ -243,12 +245,14 @@ class SyncedDict(SyncedCollection, MutableMapping):
         else:
             other = {}
 
+        # The order here is important to ensure that the promised sequence of
+        # overrides is obeyed: kwargs > other > existing data.
+        new_data = _unsync({**_unsync(other), **kwargs})
         with self._load_and_save:
-            # The order here is important to ensure that the promised sequence of
-            # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **new_data})
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = _unsync(default)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index b9e5832..152b5aa 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -16,7 +16,7 @@ from ..numpy_utils import (
     _numpy_cache_blocklist,
 )
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsync
 
 # Identifies sequences, which are the base type for this class.
 _sequence_resolver = AbstractTypeResolver(
@@ -191,6 +191,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
+            data = _unsync(data)
             with self._overwrite_and_save:
                 self._update(data)
         else:
@@ -201,6 +202,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        value = _unsync(value)
         self._validate(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(data=value, parent=self)
@@ -212,7 +214,7 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-        iterable_data = list(iterable)
+        iterable_data = _unsync(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data += [
@@ -221,18 +223,20 @@ class SyncedList(SyncedCollection, MutableSequence):
         return self
 
     def insert(self, index, item):  # noqa: D102
+        item = _unsync(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.insert(index, self._from_base(data=item, parent=self))
 
     def append(self, item):  # noqa: D102
+        item = _unsync(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.append(self._from_base(data=item, parent=self))
 
     def extend(self, iterable):  # noqa: D102
         # Convert iterable to a list to ensure generators are exhausted only once
-        iterable_data = list(iterable)
+        iterable_data = _unsync(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data.extend(
@@ -240,6 +244,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def remove(self, value):  # noqa: D102
+        value = _unsync(value)
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
-- 
2.43.0


From a21a7bd4a22e833ac0b700adfebfc8d0eeec453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:23 +0000
Subject: [PATCH 09/30] fix: validate all data passed to update() and reset()
 before using any of it

Elements were validated one by one while being merged, so rejected data left
the elements preceding it in memory and, for update(), in the backend.
---
 synced_collections/data_types/synced_dict.py | 2 ++
 synced_collections/data_types/synced_list.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index c726880..ec6fb39 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -198,6 +198,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
             data = _unsync(data)
+            self._validate(data)
             with self._overwrite_and_save:
                 self._update(data)
         else:
@@ -248,6 +249,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
         # The order here is important to ensure that the promised sequence of
         # overrides is obeyed: kwargs > other > existing data.
         new_data = _unsync({**_unsync(other), **kwargs})
+        self._validate(new_data)
         with self._load_and_save:
             self._update({**self._data, **new_data})
 
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 152b5aa..581c143 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -192,6 +192,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
             data = _unsync(data)
+            self._validate(data)
             with self._overwrite_and_save:
                 self._update(data)
         else:
-- 
2.43.0


From a684621a7823a214493a813830225184c3e18882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:35 +0000
Subject: [PATCH 10/30] fix: let update() set a key named 'other'

The positional parameter of SyncedDict.update() captured a keyword argument
of the same name. As for a dict, None is not a valid positional argument.
---
 synced_collections/data_types/synced_dict.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index ec6fb39..3c37214 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -238,13 +238,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
         with self._overwrite_and_save:
             self._data = {}
 
-    def update(self, other=None, **kwargs):  # noqa: D102
-        if other is not None:
-            # Convert sequence of key, value pairs to dict before validation
-            if _mapping_resolver.get_type(other) != "MAPPING":
-                other = dict(other)
-        else:
-            other = {}
+    def update(self, other=(), /, **kwargs):  # noqa: D102
+        # Convert sequence of key, value pairs to dict before validation
+        if _mapping_resolver.get_type(other) != "MAPPING":
+            other = dict(other)
 
         # The order here is important to ensure that the promised sequence of
         # overrides is obeyed: kwargs > other > existing data.
-- 
2.43.0


From 66a8730c23483bdd3cefc2a1568f41988bb347be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:42 +0000
Subject: [PATCH 11/30] fix: keep the lock of the old file when changing the
 filename

Other collections bound to the old file still use that lock, and a
thread waiting for it must not continue with the lock of another file.
---
 synced_collections/backends/collection_json.py  | 17 +++++++++--------
 .../data_types/synced_collection.py             |  8 +++++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..a24af45 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -9,6 +9,7 @@ import os
 import sys
 import uuid
 from collections.abc import Mapping, Sequence
+from threading import RLock
 from typing import Callable, FrozenSet
 from typing import Sequence as Sequence_t
 
@@ -218,16 +219,16 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
-        with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
-
+        # The lock of the old file must be kept because it may be in use by other
+        # collections, which may also have created a lock for the new file.
+        if type(self)._supports_threading:
+            with type(self)._cls_lock:
+                if value not in type(self)._locks:
+                    type(self)._locks[value] = RLock()
+
+        with self._LoadSaveType(self, load=False, save=False):
             self._filename = value
 
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
-
     @property
     def _lock_id(self):
         return self._filename
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 98fbacb..9a4485d 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -70,7 +70,13 @@ class _LoadAndSave:
         self._save = save
 
     def __enter__(self):
-        self._collection._thread_lock.__enter__()
+        lock = self._collection._thread_lock
+        lock.__enter__()
+        while lock is not self._collection._thread_lock:
+            # The collection was pointed to another resource while waiting.
+            lock.__exit__(None, None, None)
+            lock = self._collection._thread_lock
+            lock.__enter__()
         try:
             if self._load:
                 self._collection._load()
-- 
2.43.0


From 331940091150979fa03b262190dee3db8d56e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:15 +0000
Subject: [PATCH 12/30] fix: buffer replaced data and list data in the shared
 memory strategy

clear() and the truncation of lists replace the data of a collection, so
the buffer has to be pointed to the new data. Leaving the context of an
object whose backend is still buffered requires no action, and the one
taken failed for lists.
---
 .../buffers/memory_buffered_collection.py          | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..0975311 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -146,17 +146,6 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                         # metadata after the current flush.
                         cached_data["metadata"] = self._get_file_metadata()
                         cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
-            with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -194,7 +183,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
             if self._filename in type(self)._buffer:
-                # Always track all instances pointing to the same data.
+                # Some operations replace the data instead of modifying it.
+                type(self)._buffer[self._filename]["contents"] = self._data
 
                 # If all we had to do is set the flag, it could be done without any
                 # check, but we also need to increment the number of modified
-- 
2.43.0


From e688f9c2d0c0e8f36558233553ff5959fe667d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:21 +0000
Subject: [PATCH 13/30] fix: flush the buffered data regardless of which
 collection is flushed

The data of a collection does not have to be the data in its buffer if
other collections are bound to the same file. After a flush, collections
using the shared memory strategy must not keep nested collections that
belong to another collection.
---
 .../buffers/memory_buffered_collection.py     | 38 ++++++++++++++-----
 .../serialized_file_buffered_collection.py    |  7 ++--
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 0975311..2272221 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -12,6 +12,7 @@ so modifying one such collection results in modifying all of them, thereby
 removing any need for more complicated synchronization protocols.
 """
 
+from ..data_types.synced_collection import _sc_resolver
 from ..errors import MetadataError
 from .file_buffered_collection import FileBufferedCollection
 
@@ -109,16 +110,11 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             except KeyError:
                 # If we got to this point, it means that another collection
                 # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
+                pass
             else:
+                # Another collection may have replaced the data in the buffer.
+                self._data = cached_data["contents"]
+
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
                 try:
@@ -146,6 +142,30 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                         # metadata after the current flush.
                         cached_data["metadata"] = self._get_file_metadata()
                         cached_data["modified"] = False
+            finally:
+                # Unless this was a force flush, in which case the data store is
+                # still the cached data, this object has to stop sharing data
+                # with other instances.
+                if not force:
+                    self._unshare_data(self)
+
+    def _unshare_data(self, collection):
+        """Replace all shared data in a collection by copies belonging to this object.
+
+        Parameters
+        ----------
+        collection : SyncedCollection
+            This object or a collection nested within it.
+
+        """
+        data = collection._data.copy()
+        for key, value in data.items() if isinstance(data, dict) else enumerate(data):
+            if _sc_resolver.get_type(value) == "SYNCEDCOLLECTION":
+                if value._root is self:
+                    self._unshare_data(value)
+                else:
+                    data[key] = self._from_base(value._to_base(), parent=self)
+        collection._data = data
 
     def _load(self):
         """Load data from the backend but buffer if needed.
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..c5f19a6 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,12 +109,11 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
-
                     # If the contents have not been changed since the initial read,
-                    # we don't need to rewrite it.
+                    # we don't need to rewrite it. The data of this instance does
+                    # not have to include changes made through other instances.
                     try:
-                        if self._hash(blob) != cached_data["hash"]:
+                        if self._hash(cached_data["contents"]) != cached_data["hash"]:
                             # Validate that the file hasn't been changed by
                             # something else.
                             if cached_data["metadata"] != self._get_file_metadata():
-- 
2.43.0


From 959a1023868d503e87df3dc5f93ebd19cf3b18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:47 +0000
Subject: [PATCH 14/30] fix: restore buffer settings and keep other collections
 when a flush raises

---
 .../buffers/file_buffered_collection.py       | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index e414606..4c3fcc7 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -40,19 +40,26 @@ class _FileBufferedContext(_CounterFuncContext):
         return self
 
     def __enter__(self):
+        buffer_capacity, self._buffer_capacity = self._buffer_capacity, None
+        original_buffer_capacity = None
+        if buffer_capacity is not None:
+            original_buffer_capacity = self._cls.get_buffer_capacity()
+            try:
+                self._cls.set_buffer_capacity(buffer_capacity)
+            except BaseException:
+                # __exit__ is not called if __enter__ raises.
+                self._cls.set_buffer_capacity(original_buffer_capacity)
+                raise
+        self._original_buffer_capacitys.append(original_buffer_capacity)
         super().__enter__()
-        if self._buffer_capacity is not None:
-            self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
-        else:
-            self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
-        original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        try:
+            super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            original_buffer_capacity = self._original_buffer_capacitys.pop()
+            if original_buffer_capacity is not None:
+                self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
@@ -347,9 +354,9 @@ class FileBufferedCollection(BufferedCollection):
                 collection._flush(force=force)
             except (OSError, MetadataError) as err:
                 issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+        with cls._BUFFER_LOCK:
+            cls._buffered_collections.update(remaining_collections)
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
-- 
2.43.0


From fadf1e6a3aaf105eea0955640f40f4e34f33a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:47 +0000
Subject: [PATCH 15/30] fix: do not lose track of outside changes in forced
 flushes

The metadata of files that were not written must not be refreshed, and
data conflicting with a changed file must not stay in the buffer.
---
 .../buffers/memory_buffered_collection.py     | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 2272221..c0b80c6 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -117,31 +117,34 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
 
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
+                retain = force
                 try:
                     # Validate that the file hasn't been changed by
                     # something else.
                     if cached_data["modified"]:
+                        retain = False
                         if cached_data["metadata"] != self._get_file_metadata():
                             raise MetadataError(self._filename, cached_data["contents"])
                         self._save_to_resource()
+                        if force:
+                            # Have to update the metadata on a force flush because
+                            # we could modify this item again later, leading to
+                            # another (possibly forced) flush afterwards that will
+                            # appear invalid if the metadata isn't updated to the
+                            # metadata after the current flush.
+                            cached_data["metadata"] = self._get_file_metadata()
+                            retain = True
                 finally:
-                    # Whether or not an error was raised, the cache must be
-                    # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
+                    # If an error was raised, the cache must be cleared to
+                    # ensure a valid final buffer state. Otherwise we never
+                    # delete when force flushing, but take note that the data
+                    # is no longer modified relative to its representation on
+                    # disk.
                     if cached_data["modified"]:
                         type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
-                        del type(self)._buffer[self._filename]
-                    else:
-                        # Have to update the metadata on a force flush because
-                        # we could modify this item again later, leading to
-                        # another (possibly forced) flush afterwards that will
-                        # appear invalid if the metadata isn't updated to the
-                        # metadata after the current flush.
-                        cached_data["metadata"] = self._get_file_metadata()
                         cached_data["modified"] = False
+                    if not retain:
+                        del type(self)._buffer[self._filename]
             finally:
                 # Unless this was a force flush, in which case the data store is
                 # still the cached data, this object has to stop sharing data
-- 
2.43.0


From a7a59026e22c5d7e001f56c70a88f6be8b2a5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:52 +0000
Subject: [PATCH 16/30] fix: reject keys containing dots in lists of
 attribute-access families

---
 synced_collections/backends/collection_json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index a24af45..4eba707 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -596,6 +596,8 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -612,6 +614,8 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -628,3 +632,5 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
-- 
2.43.0


From e5e5dff7b2d0527f7d2596f1ee990c74d1cb99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:52 +0000
Subject: [PATCH 17/30] fix: check the keys of mappings inside sequences in
 require_string_key

---
 synced_collections/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From 5108f8a2c559719de855ed81d21fa35ae108da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:52 +0000
Subject: [PATCH 18/30] fix: validate data the way it is converted

0d arrays can contain objects that are not JSON serializable, and types
that are both mappings and sequences are converted as mappings.
---
 synced_collections/backends/collection_json.py | 7 ++++++-
 synced_collections/validators.py               | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 4eba707..c15f1bf 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -42,12 +42,12 @@ code to reduce this barrier.
 
 _json_attr_dict_validator_type_resolver = AbstractTypeResolver(
     {
+        "MAPPING": lambda obj: isinstance(obj, Mapping),
         # We identify >0d numpy arrays as sequences for validation purposes.
         "SEQUENCE": lambda obj: (isinstance(obj, Sequence) and not isinstance(obj, str))
         or _is_atleast_1d_numpy_array(obj),
         "NUMPY": lambda obj: _is_numpy_scalar(obj),
         "BASE": lambda obj: isinstance(obj, (str, int, float, bool, type(None))),
-        "MAPPING": lambda obj: isinstance(obj, Mapping),
     },
     cache_blocklist=_numpy_cache_blocklist,
 )
@@ -106,6 +106,11 @@ def json_attr_dict_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        elif not isinstance(data.item(), (str, int, float, bool, type(None))):
+            # 0d arrays can contain any object.
+            raise TypeError(
+                f"Object of type {type(data.item()).__name__} is not JSON serializable."
+            )
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable."
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 6f33b02..ad88264 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -97,12 +97,12 @@ def require_string_key(data):
 
 _json_format_validator_type_resolver = AbstractTypeResolver(
     {
+        "MAPPING": lambda obj: isinstance(obj, Mapping),
         # We identify >0d numpy arrays as sequences for validation purposes.
         "SEQUENCE": lambda obj: (isinstance(obj, Sequence) and not isinstance(obj, str))
         or _is_atleast_1d_numpy_array(obj),
         "NUMPY": lambda obj: _is_numpy_scalar(obj),
         "BASE": lambda obj: isinstance(obj, (str, int, float, bool, type(None))),
-        "MAPPING": lambda obj: isinstance(obj, Mapping),
     },
     cache_blocklist=_numpy_cache_blocklist,
 )
@@ -141,6 +141,11 @@ def json_format_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        elif not isinstance(data.item(), (str, int, float, bool, type(None))):
+            # 0d arrays can contain any object.
+            raise TypeError(
+                f"Object of type {type(data.item()).__name__} is not JSON serializable"
+            )
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable"
-- 
2.43.0


From 87f95f7abc43c24fa5289a5e27f79fa7c3db2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:10 +0000
Subject: [PATCH 19/30] fix: reject values and keys that cannot be stored in
 Zarr collections

Values rejected by the JSON codec only when saving left the data in
memory and an unreadable dataset in the group.
---
 .../backends/collection_zarr.py               | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..b3598f1 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -2,19 +2,34 @@
 # All rights reserved.
 # This software is licensed under the BSD 3-Clause License.
 """Implements a Zarr :class:`~.SyncedCollection` backend."""
+from collections.abc import Mapping
 from copy import deepcopy
 
 from .. import SyncedCollection, SyncedDict, SyncedList
-from ..validators import require_string_key
+from ..validators import json_format_validator, require_string_key
 
 try:
     import numcodecs
+    import numpy
 
     ZARR = True
 except ImportError:
     ZARR = False
 
 
+def _mask_numpy_numbers(data):
+    """Replace numerical NumPy data, which is left to be converted and encoded."""
+    if isinstance(data, (numpy.ndarray, numpy.number)) and numpy.issubdtype(
+        data.dtype, numpy.number
+    ):
+        return None
+    elif isinstance(data, Mapping):
+        return {key: _mask_numpy_numbers(value) for key, value in data.items()}
+    elif SyncedList.is_base_type(data):
+        return [_mask_numpy_numbers(value) for value in data]
+    return data
+
+
 class ZarrCollection(SyncedCollection):
     r"""A :class:`~.SyncedCollection` that synchronizes with a Zarr group.
 
@@ -44,6 +59,7 @@ class ZarrCollection(SyncedCollection):
     """
 
     _backend = __name__  # type: ignore
+    _validators = (require_string_key,)
 
     def __init__(self, group=None, name=None, codec=None, *args, **kwargs):
         if not ZARR:
@@ -51,10 +67,27 @@ class ZarrCollection(SyncedCollection):
                 "The Zarr package must be installed to use the ZarrCollection."
             )
 
+        # The codec is required to validate initial data.
+        self._object_codec = numcodecs.JSON() if codec is None else codec
         super().__init__(**kwargs)
         self._group = group
         self._name = name
-        self._object_codec = numcodecs.JSON() if codec is None else codec
+
+    def _validate(self, data):
+        """Validate the input data.
+
+        The supported values depend on the codec used to encode the data.
+
+        Parameters
+        ----------
+        data : Collection
+            An collection satisfying :meth:`is_base_type`.
+
+        """
+        super()._validate(data)
+        root = self if self._root is None else self._root
+        if isinstance(root._object_codec, numcodecs.JSON):
+            json_format_validator(_mask_numpy_numbers(data))
 
     def _load_from_resource(self):
         """Load the data from the Zarr group.
@@ -162,8 +195,6 @@ class ZarrDict(ZarrCollection, SyncedDict):
 
     """
 
-    _validators = (require_string_key,)
-
     def __init__(self, group=None, name=None, data=None, parent=None, *args, **kwargs):
         super().__init__(
             group=group, name=name, data=data, parent=parent, *args, **kwargs
-- 
2.43.0


From c14dd8548a4a1d28a069205e949a1a6f91438149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:10 +0000
Subject: [PATCH 20/30] fix: keep attribute access of missing and protected
 names apart from the data

Deleting a missing attribute raises an AttributeError, and protected
names without an attribute do not refer to data.
---
 synced_collections/data_types/attr_dict.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..d348b5f 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -40,9 +40,13 @@ class AttrDict:
         if name.startswith("__"):
             raise AttributeError(f"{type(self)} has no attribute '{name}'")
         try:
-            return self.__getitem__(name)
+            value = self.__getitem__(name)
         except KeyError as e:
             raise AttributeError(e)
+        if name in self._PROTECTED_KEYS:
+            # Protected names always refer to attributes of the object itself.
+            raise AttributeError(f"{type(self)} has no attribute '{name}'")
+        return value
 
     def __setattr__(self, key, value):
         # This logic assumes that __setitem__ will not be called until after
@@ -62,4 +66,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From c2a0caba804df6a42ed6a12fe2fef8135cb189a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:26 +0000
Subject: [PATCH 21/30] fix: do not classify objects by cached types that do
 not identify them

Subclasses of arrays can be scalars or sequences like arrays themselves,
and the same proxy type can wrap objects of any type.
---
 synced_collections/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..102dc30 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -56,16 +56,19 @@ class AbstractTypeResolver:
         A mapping from string identifiers for an abstract type to callables that
         accepts an object and returns True if the object is of the key type and
         False if not.
-    type_map : Dict[Type, str]
-        A mapping from concrete types to the corresponding named abstract type
-        from :attr:`~.abstract_type_identifiers`.
+    type_map : Dict[Tuple[Type, Type], str]
+        A mapping from concrete types (and the classes reported by the objects) to
+        the corresponding named abstract type from
+        :attr:`~.abstract_type_identifiers`.
 
     """
 
     def __init__(self, abstract_type_identifiers, cache_blocklist=None):
         self.abstract_type_identifiers = abstract_type_identifiers
         self.type_map = {}
-        self.cache_blocklist = cache_blocklist if cache_blocklist is not None else ()
+        self.cache_blocklist = (
+            tuple(cache_blocklist) if cache_blocklist is not None else ()
+        )
 
     def get_type(self, obj):
         """Get the type string corresponding to this data type.
@@ -83,7 +86,9 @@ class AbstractTypeResolver:
             will return ``None``.
 
         """
-        obj_type = type(obj)
+        # Objects may report a class that is different from their type, for
+        # instance if they are proxies.
+        obj_type = (type(obj), obj.__class__)
         enum_type = None
         try:
             enum_type = self.type_map[obj_type]
@@ -92,7 +97,7 @@ class AbstractTypeResolver:
                 if id_func(obj):
                     enum_type = data_type
                     break
-            if obj_type not in self.cache_blocklist:
+            if not isinstance(obj, self.cache_blocklist):
                 self.type_map[obj_type] = enum_type
 
         return enum_type
-- 
2.43.0


From 02f1fbfb92882619584b266751ff25229420789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:16 +0000
Subject: [PATCH 22/30] fix: also read synced arguments inside subclasses of
 built-in containers

---
 synced_collections/data_types/synced_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 9a4485d..db27d1d 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -47,9 +47,9 @@ def _unsync(data):
     """
     if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
         return data()
-    elif type(data) is dict:
+    elif isinstance(data, dict):
         return {key: _unsync(value) for key, value in data.items()}
-    elif type(data) in (list, tuple):
+    elif isinstance(data, (list, tuple)):
         return [_unsync(value) for value in data]
     return data
 
-- 
2.43.0


From 4da3dbbea488436009c165646e94f55229136921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:29 +0000
Subject: [PATCH 23/30] fix: write buffered data of missing files even if it is
 empty again

Buffered changes that left the data as empty as the missing file they were
based on were dropped when leaving the buffered mode. No file was written, and
other collections bound to the same file kept showing what they had cached.
---
 .../buffers/serialized_file_buffered_collection.py             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index c5f19a6..53cae5c 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -214,6 +214,9 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 buffer_size_change = len(blob) - len(cached_data["contents"])
                 type(self)._CURRENT_BUFFER_SIZE += buffer_size_change
                 cached_data["contents"] = blob
+                if cached_data["metadata"] is None:
+                    # There is no file whose contents the data could match.
+                    cached_data["hash"] = None
             else:
                 # The only methods that could safely call sync without a load are
                 # destructive operations like `reset` or `clear` that completely
-- 
2.43.0


From ab6c28271d15aa0d93e95d01f023bc4d94fa72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:40 +0000
Subject: [PATCH 24/30] fix: release the lock that was acquired when the
 filename changes

Changing the filename acquired the lock of the old file and then tried to
release the lock of the new one, which raised and left the old one locked.
---
 synced_collections/data_types/synced_collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index db27d1d..2132c7b 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -77,12 +77,14 @@ class _LoadAndSave:
             lock.__exit__(None, None, None)
             lock = self._collection._thread_lock
             lock.__enter__()
+        # The lock of the collection may be a different one when exiting.
+        self._lock = lock
         try:
             if self._load:
                 self._collection._load()
         except BaseException:
             # __exit__ is not called if __enter__ raises.
-            self._collection._thread_lock.__exit__(*sys.exc_info())
+            lock.__exit__(*sys.exc_info())
             raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -91,7 +93,7 @@ class _LoadAndSave:
             if self._save and exc_type is None:
                 self._collection._save()
         finally:
-            self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
+            self._lock.__exit__(exc_type, exc_val, exc_tb)
 
 
 class SyncedCollection(Collection):
-- 
2.43.0


From 159756253113953cc63ee22783596cfd1d84bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:14 +0000
Subject: [PATCH 25/30] fix: flush the remaining collections when data of one
 cannot be saved

Errors other than OSError and MetadataError aborted the loop over all
buffered collections. The other collections were not written and stayed
in the buffer after the context had ended.
---
 synced_collections/buffers/file_buffered_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 4c3fcc7..7d537ad 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -17,7 +17,7 @@ from threading import RLock
 from typing import Dict, Tuple, Union
 
 from ..data_types.synced_collection import _LoadAndSave
-from ..errors import BufferedError, MetadataError
+from ..errors import BufferedError
 from ..utils import _CounterFuncContext, _NullContext
 from .buffered_collection import BufferedCollection
 
@@ -352,7 +352,7 @@ class FileBufferedCollection(BufferedCollection):
 
             try:
                 collection._flush(force=force)
-            except (OSError, MetadataError) as err:
+            except Exception as err:
                 issues[collection._filename] = err
         with cls._BUFFER_LOCK:
             cls._buffered_collections.update(remaining_collections)
-- 
2.43.0


From 5b3452502760672117d3a77a6ac41261f11061c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:01 +0000
Subject: [PATCH 26/30] fix: read synced arguments inside any mapping or
 sequence before locking

---
 synced_collections/data_types/synced_collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 2132c7b..3bbe765 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -5,7 +5,7 @@
 import sys
 from abc import abstractmethod
 from collections import defaultdict
-from collections.abc import Collection
+from collections.abc import Collection, Mapping, Sequence
 from inspect import isabstract
 from threading import RLock
 from typing import Any, DefaultDict, List
@@ -47,9 +47,9 @@ def _unsync(data):
     """
     if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
         return data()
-    elif isinstance(data, dict):
+    elif isinstance(data, Mapping):
         return {key: _unsync(value) for key, value in data.items()}
-    elif isinstance(data, (list, tuple)):
+    elif isinstance(data, Sequence) and not isinstance(data, (str, bytes)):
         return [_unsync(value) for value in data]
     return data
 
-- 
2.43.0


From 6f58316aedc079958cc5aeebf3beb4ddc8a47365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:01 +0000
Subject: [PATCH 27/30] fix: search lists in a single read

The mixin implementations of index, count and 'in' access the elements
one after another. With another thread modifying the list they could
give results that were not correct at any time.
---
 synced_collections/data_types/synced_list.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 581c143..b5167fa 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -8,6 +8,7 @@ This implements a list-like data structure that also conforms to the
 give a list-like API to a synchronized data structure.
 """
 
+import sys
 from collections.abc import MutableSequence, Sequence
 
 from ..numpy_utils import (
@@ -264,6 +265,17 @@ class SyncedList(SyncedCollection, MutableSequence):
         with self._overwrite_and_save:
             self._data = []
 
+    # The mixin implementations of the following methods access the elements one
+    # after another, between which other threads could modify the data.
+    def __contains__(self, value):
+        return value in self()
+
+    def index(self, value, start=0, stop=None):  # noqa: D102
+        return self().index(value, start, sys.maxsize if stop is None else stop)
+
+    def count(self, value):  # noqa: D102
+        return self().count(value)
+
     def __lt__(self, other):
         if isinstance(other, type(self)):
             return self() < other()
-- 
2.43.0


From b90c43cc363e9178009f7bc6d6dd7bc3f38ecef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:29:46 +0000
Subject: [PATCH 28/30] fix: forget collections that are no longer buffered
 when they are flushed

A collection that left its own buffered context stayed registered in the
buffer. When a backend-wide context exited later, it flushed the data that
another, still buffered object had stored for the same file.
---
 synced_collections/buffers/memory_buffered_collection.py        | 2 ++
 .../buffers/serialized_file_buffered_collection.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index c0b80c6..99a378d 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -105,6 +105,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # Different files in the buffer can be safely flushed simultaneously,
         # but a given file can only be flushed on one thread at once.
         if not self._is_buffered or force:
+            if not force:
+                type(self)._buffered_collections.pop(id(self), None)
             try:
                 cached_data = type(self)._buffer[self._filename]
             except KeyError:
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index 53cae5c..24d640a 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -101,6 +101,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # but a given file can only be flushed on one thread at once.
         with self._buffer_lock:
             if not self._is_buffered or force:
+                if not force:
+                    type(self)._buffered_collections.pop(id(self), None)
                 try:
                     cached_data = type(self)._buffer[self._filename]
                 except KeyError:
-- 
2.43.0


From cc32157f65f3f585bb09b4137a1e5170fa0f564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:56 +0000
Subject: [PATCH 29/30] fix: buffer nested collections together with the data
 surrounding them

The buffered context of a nested collection had no effect, so that data was
written to the file while its collection was supposed to be buffered. It is
now the context of the collection that contains it.
---
 synced_collections/buffers/buffered_collection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index b519848..3aba80c 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -82,9 +82,13 @@ class BufferedCollection(SyncedCollection):
 
     """
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-        self.buffered = _CounterFuncContext(self._flush)
+    def __init__(self, *args, parent=None, **kwargs):
+        # Nested collections are buffered together with the data surrounding them.
+        if parent is None:
+            self.buffered = _CounterFuncContext(self._flush)
+        else:
+            self.buffered = parent.buffered
+        super().__init__(*args, parent=parent, **kwargs)
 
     @classmethod
     def __init_subclass__(cls):
-- 
2.43.0


From 40f350354abb6a0abf90a65977adc5495d22aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:05 +0000
Subject: [PATCH 30/30] fix: look for invalid keys inside numpy arrays of
 objects

The validators of keys skipped numpy arrays. A mapping with keys that are not
strings, or with dots in its keys, was accepted inside an array of objects.
Backends that do not validate the JSON format stored it.
---
 synced_collections/numpy_utils.py | 11 +++++++++++
 synced_collections/validators.py  | 10 +++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/synced_collections/numpy_utils.py b/synced_collections/numpy_utils.py
index 0ef141c..09f56db 100644
--- a/synced_collections/numpy_utils.py
+++ b/synced_collections/numpy_utils.py
@@ -63,6 +63,17 @@ def _is_atleast_1d_numpy_array(data):
     return NUMPY and isinstance(data, numpy.ndarray) and data.ndim > 0
 
 
+def _is_numpy_object_array(data):
+    """Check if an object is a numpy array of arbitrary Python objects.
+
+    Returns
+    -------
+    bool
+        Whether or not the input is a numpy array that can contain any object.
+    """
+    return NUMPY and isinstance(data, numpy.ndarray) and data.dtype.hasobject
+
+
 def _is_numpy_scalar(data):
     """Check if an object is a numpy scalar.
 
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index ad88264..e8446e6 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -16,6 +16,7 @@ from .errors import InvalidKeyError, KeyTypeError
 from .numpy_utils import (
     _is_atleast_1d_numpy_array,
     _is_complex,
+    _is_numpy_object_array,
     _is_numpy_scalar,
     _numpy_cache_blocklist,
 )
@@ -25,7 +26,10 @@ _no_dot_in_key_type_resolver = AbstractTypeResolver(
     {
         "MAPPING": lambda obj: isinstance(obj, Mapping),
         "SEQUENCE": lambda obj: isinstance(obj, Sequence) and not isinstance(obj, str),
-    }
+        # Other numpy arrays cannot contain mappings.
+        "NUMPY": lambda obj: _is_numpy_object_array(obj),
+    },
+    cache_blocklist=_numpy_cache_blocklist,
 )
 
 
@@ -62,6 +66,8 @@ def no_dot_in_key(data):
     elif switch_type == "SEQUENCE":
         for value in data:
             no_dot_in_key(value)
+    elif switch_type == "NUMPY":
+        no_dot_in_key(data.tolist())
 
 
 def require_string_key(data):
@@ -93,6 +99,8 @@ def require_string_key(data):
     elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
+    elif switch_type == "NUMPY":
+        require_string_key(data.tolist())
 
 
 _json_format_validator_type_resolver = AbstractTypeResolver(
-- 
2.43.0

