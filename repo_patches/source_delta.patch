From f33bc946be167092f8b9a7440df37c436751ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:26 +0000
Subject: [PATCH 01/29] fix: compare synced lists with plain lists the right
 way around

SyncedList.__lt__ evaluated `>` when the other operand was not a synced list.
---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..8a365b1 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -246,7 +246,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 8d62b943765f90982501865c8b240e845bbd75a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:26 +0000
Subject: [PATCH 02/29] fix: accept a keyword named "other" in
 SyncedDict.update

The positional parameter captured the keyword, so update(other=1) raised.
The signature now matches collections.abc.MutableMapping.update.
---
 synced_collections/data_types/synced_dict.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..9a60f98 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -231,13 +231,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
         with self._thread_lock:
             self._save()
 
-    def update(self, other=None, **kwargs):  # noqa: D102
-        if other is not None:
-            # Convert sequence of key, value pairs to dict before validation
-            if _mapping_resolver.get_type(other) != "MAPPING":
-                other = dict(other)
-        else:
-            other = {}
+    def update(self, other=(), /, **kwargs):  # noqa: D102
+        # Convert sequence of key, value pairs to dict before validation
+        if _mapping_resolver.get_type(other) != "MAPPING":
+            other = dict(other)
 
         with self._load_and_save:
             # The order here is important to ensure that the promised sequence of
-- 
2.43.0


From 44d41250a246907c59877c94131f3c722dd43cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:26 +0000
Subject: [PATCH 03/29] fix: replace values that changed to null or to an equal
 value of another type

When merging new data, a nested collection whose new value is None was left
in place, and a number or boolean was kept if the new value compared equal
(for instance 1 and True).  Both made collections show and save stale data.
---
 synced_collections/data_types/synced_dict.py | 21 +++++++++++++------
 synced_collections/data_types/synced_list.py | 22 +++++++++++++-------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 9a60f98..8676029 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,14 +141,23 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
+                        if new_value is existing:
                             continue
                         if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
-                            try:
-                                existing._update(new_value)
-                                continue
-                            except ValueError:
-                                pass
+                            # A value of None must replace the collection, but
+                            # _update would leave the collection unchanged.
+                            if new_value is not None:
+                                try:
+                                    existing._update(new_value)
+                                    continue
+                                except ValueError:
+                                    pass
+                        elif type(new_value) is type(existing) and (
+                            new_value == existing
+                        ):
+                            # The types must match because values of different
+                            # types may compare equal, e.g. 1, 1.0 and True.
+                            continue
 
                         # Fall through if the new value is not identical to the
                         # existing value and
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 8a365b1..d5da217 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -143,14 +143,22 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
                 for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
+                    existing = self._data[i]
+                    if data[i] is existing:
+                        continue
+                    if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
+                        # A value of None must replace the collection, but
+                        # _update would leave the collection unchanged.
+                        if data[i] is not None:
+                            try:
+                                existing._update(data[i])
+                                continue
+                            except ValueError:
+                                pass
+                    elif type(data[i]) is type(existing) and data[i] == existing:
+                        # The types must match because values of different
+                        # types may compare equal, e.g. 1, 1.0 and True.
                         continue
-                    if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
-                        try:
-                            self._data[i]._update(data[i])
-                            continue
-                        except ValueError:
-                            pass
                     if not _validate:
                         self._validate(data[i])
                     self._data[i] = self._from_base(data[i], parent=self)
-- 
2.43.0


From 1724fb13ffe6f6ce37e0f12528793739966b811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:26 +0000
Subject: [PATCH 04/29] fix: merge data into a synced list in place

Shrinking rebound the underlying list, and growing went through the public
extend method, which takes locks in the middle of a load.
---
 synced_collections/data_types/synced_list.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index d5da217..5c17feb 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -142,7 +142,7 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # operations for all subsequent items. In the worst case,
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
-                for i in range(min(len(self), len(data))):
+                for i in range(min(len(self._data), len(data))):
                     existing = self._data[i]
                     if data[i] is existing:
                         continue
@@ -164,12 +164,14 @@ class SyncedList(SyncedCollection, MutableSequence):
                     self._data[i] = self._from_base(data[i], parent=self)
 
                 if len(self._data) > len(data):
-                    self._data = self._data[: len(data)]
+                    del self._data[len(data) :]
                 else:
-                    new_data = data[len(self) :]
+                    new_data = data[len(self._data) :]
                     if not _validate:
                         self._validate(new_data)
-                    self.extend(new_data)
+                    self._data.extend(
+                        [self._from_base(data=value, parent=self) for value in new_data]
+                    )
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
-- 
2.43.0


From 88a8d6be15e031402806f39f30cd61dd822ecf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:43 +0000
Subject: [PATCH 05/29] fix: release the locks if loading fails at the start of
 a write

A write to a collection whose resource could not be loaded left the thread
lock and the buffer lock held, which blocked all other threads for good.
---
 synced_collections/buffers/file_buffered_collection.py | 6 +++++-
 synced_collections/data_types/synced_collection.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..6be6d71 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -63,7 +63,11 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        try:
+            super().__enter__()
+        except BaseException:
+            self._collection._buffer_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..2b74923 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -41,7 +41,12 @@ class _LoadAndSave:
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
-        self._collection._load()
+        try:
+            self._collection._load()
+        except BaseException:
+            # The exit method is not called if entering fails.
+            self._collection._thread_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From e8f875798cffdf7e56b1f25abafd82448e1e64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:43 +0000
Subject: [PATCH 06/29] fix: do not save after an operation that raised

For instance, deleting a missing key rewrote the resource, or created it if
it did not exist.
---
 synced_collections/data_types/synced_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 2b74923..a159ed7 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -50,7 +50,9 @@ class _LoadAndSave:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # An operation that failed has nothing to save.
+            if exc_type is None:
+                self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
 
-- 
2.43.0


From 858381737228955d23620a51f102175be3a00273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:43 +0000
Subject: [PATCH 07/29] fix: apply clear and reset to the current content under
 the lock

Clearing or resetting a nested collection saved whatever was in memory around
it, so changes made through other objects were overwritten.  Both operations
also changed the data before taking the lock, and took the lock of the nested
collection rather than the one protecting the resource.  A reset with invalid
data is now rejected before anything is changed.
---
 .../buffers/file_buffered_collection.py       | 11 +++++++++
 .../buffers/memory_buffered_collection.py     |  9 +++++++
 .../data_types/synced_collection.py           | 24 +++++++++++++++++++
 synced_collections/data_types/synced_dict.py  | 11 +++++----
 synced_collections/data_types/synced_list.py  | 11 +++++----
 5 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 6be6d71..ba270d1 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -12,6 +12,7 @@ specific components are abstract and must be implemented by child classes.
 import errno
 import os
 from abc import abstractmethod
+from contextlib import contextmanager
 from threading import RLock
 from typing import Dict, Tuple, Union
 
@@ -171,6 +172,16 @@ class FileBufferedCollection(BufferedCollection):
         """Acquire the buffer lock."""
         return type(self)._BUFFER_LOCK
 
+    @contextmanager
+    def _locked(self):
+        """Hold the locks protecting the resource and the buffer."""
+        if self._root is not None:
+            with super()._locked():
+                yield
+        else:
+            with self._buffer_lock, super()._locked():
+                yield
+
     def _get_file_metadata(self):
         """Return metadata of file.
 
diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..0772244 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -175,6 +175,15 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             else:
                 self._root._load()
 
+    def _prepare_overwrite(self):
+        """Prepare for replacing the entire data of this collection."""
+        if self._root is None and self._is_buffered:
+            if self._filename in type(self)._buffer:
+                # All collections sharing the buffered data must be changed.
+                self._load_from_buffer()
+        else:
+            super()._prepare_overwrite()
+
     def _save_to_buffer(self):
         """Store data in buffer.
 
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index a159ed7..3aaa9ac 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -5,6 +5,7 @@
 from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Collection
+from contextlib import contextmanager
 from inspect import isabstract
 from threading import RLock
 from typing import Any, DefaultDict, List
@@ -475,6 +476,29 @@ class SyncedCollection(Collection):
         for validator in self._all_validators:
             validator(data)
 
+    @contextmanager
+    def _locked(self):
+        """Hold the locks protecting the resource of this collection.
+
+        Nested collections are protected by the locks of their root.
+        """
+        if self._root is not None:
+            with self._root._locked():
+                yield
+        else:
+            with self._thread_lock:
+                yield
+
+    def _prepare_overwrite(self):
+        """Prepare for replacing the entire data of this collection.
+
+        The data stored in the resource is irrelevant if a root collection is
+        overwritten, but the data surrounding a nested collection must be current
+        because it will be saved as well.
+        """
+        if self._root is not None:
+            self._load()
+
     # The following methods share a common implementation for
     # all data structures and regardless of backend.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 8676029..aab005b 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -199,8 +199,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
+            self._validate(data)
+            with self._locked():
+                self._prepare_overwrite()
+                self._update(data)
                 self._save()
         else:
             raise ValueError(
@@ -236,8 +238,9 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
+        with self._locked():
+            self._prepare_overwrite()
+            self._data.clear()
             self._save()
 
     def update(self, other=(), /, **kwargs):  # noqa: D102
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 5c17feb..6bb1c7f 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -195,8 +195,10 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
+            self._validate(data)
+            with self._locked():
+                self._prepare_overwrite()
+                self._update(data)
                 self._save()
         else:
             raise ValueError(
@@ -248,8 +250,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
+        with self._locked():
+            self._prepare_overwrite()
+            self._data.clear()
             self._save()
 
     def __lt__(self, other):
-- 
2.43.0


From 1ac28e2d5bf457ba69634bdd96f941ee54464f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:43 +0000
Subject: [PATCH 08/29] fix: make pop and reverse of synced lists atomic

The inherited methods consist of several separate reads and writes, between
which other threads could change the list.
---
 synced_collections/data_types/synced_list.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 6bb1c7f..cbe0419 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -249,6 +249,14 @@ class SyncedList(SyncedCollection, MutableSequence):
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            return self._data.pop(index)
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
+
     def clear(self):  # noqa: D102
         with self._locked():
             self._prepare_overwrite()
-- 
2.43.0


From 5a1b44fce5bfa214d0a6e8d9f4cccf3696716e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:43 +0000
Subject: [PATCH 09/29] fix: guard read operations with the lock

Reading reloads the data in memory.  A read on one thread could therefore
interfere with a write on another one that was between its load and its save,
which lost the update, or fail because the data changed during an iteration.
Reads now hold the lock while they load and evaluate, and iterators and views
work on a copy.
---
 .../data_types/synced_collection.py           | 40 +++++++++++--------
 synced_collections/data_types/synced_dict.py  | 13 +++---
 synced_collections/data_types/synced_list.py  | 18 ++++++++-
 3 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 3aaa9ac..7722c93 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -147,10 +147,11 @@ class SyncedCollection(Collection):
     Whether or not :class:`SyncedCollection` objects are thread-safe depends on the
     implementation of the backend. Thread-safety of SyncedCollection objects
     is predicated on backends providing an atomic write operation. All concrete
-    collection types use mutexes to guard against concurrent write operations,
-    while allowing read operations to happen freely. The validity of this mode
-    of access depends on the write operations of a SyncedCollection being
-    atomic, specifically the `:meth:`~._save_to_resource` method. Whether or not
+    collection types use mutexes to guard against concurrent operations. Read
+    operations are guarded as well because they update the data in memory. The
+    validity of this mode of access depends on the write operations of a
+    SyncedCollection being atomic, specifically the
+    `:meth:`~._save_to_resource` method. Whether or not
     a particular subclass of :class:`SyncedCollection` is thread-safe should be
     indicated by that subclass setting the ``_supports_threading`` class variable
     to ``True``. This variable is set to ``False`` by :class:`SyncedCollection`,
@@ -489,6 +490,13 @@ class SyncedCollection(Collection):
             with self._thread_lock:
                 yield
 
+    @contextmanager
+    def _loaded(self):
+        """Load the current data and keep it unchanged by other threads."""
+        with self._locked():
+            self._load()
+            yield
+
     def _prepare_overwrite(self):
         """Prepare for replacing the entire data of this collection.
 
@@ -503,20 +511,21 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._loaded():
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        # Iterate over a copy because the data may be reloaded at any time.
+        with self._loaded():
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._loaded():
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -527,20 +536,17 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._loaded():
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        return repr(self())
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        return str(self())
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index aab005b..7b5d08b 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -212,20 +212,17 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        return self().keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        return self().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        return self().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._loaded():
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index cbe0419..d74e576 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -213,8 +213,22 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        # Iterate over a copy because the data may be reloaded at any time.
+        with self._loaded():
+            return reversed(list(self._data))
+
+    # The inherited versions of the following methods access the elements one
+    # by one, and the list could change in the meantime.
+
+    def __contains__(self, value):
+        return value in self()
+
+    def index(self, value, start=0, stop=None):  # noqa: D102
+        data = self()
+        return data.index(value, start, len(data) if stop is None else stop)
+
+    def count(self, value):  # noqa: D102
+        return self().count(value)
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-- 
2.43.0


From 7ae58dc0a5104b2e0bd8fddef87eff70a4f57690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:43 +0000
Subject: [PATCH 10/29] fix: copy arguments that are synced collections before
 taking the lock

Storing one synced collection in another read the former while holding the
lock of the latter.  Two threads doing this in opposite directions blocked
each other.  update now also rejects invalid data before changing anything.
---
 .../data_types/synced_collection.py           | 28 ++++++++++++++++++-
 synced_collections/data_types/synced_dict.py  | 13 ++++++---
 synced_collections/data_types/synced_list.py  | 11 ++++++--
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 7722c93..a99d9c4 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -4,7 +4,7 @@
 """Implement the SyncedCollection class."""
 from abc import abstractmethod
 from collections import defaultdict
-from collections.abc import Collection
+from collections.abc import Collection, Mapping, Sequence
 from contextlib import contextmanager
 from inspect import isabstract
 from threading import RLock
@@ -27,6 +27,32 @@ _collection_resolver = AbstractTypeResolver(
 )
 
 
+# Identifies the containers that may hold synced collections.
+_container_resolver = AbstractTypeResolver(
+    {
+        "SYNCEDCOLLECTION": lambda obj: isinstance(obj, SyncedCollection),
+        "MAPPING": lambda obj: isinstance(obj, Mapping),
+        "SEQUENCE": lambda obj: isinstance(obj, Sequence) and not isinstance(obj, str),
+    }
+)
+
+
+def _detach(data):
+    """Copy containers, replacing synced collections by unsynced equivalents.
+
+    Data provided by users must be detached before any lock is acquired, because
+    reading from a synced collection requires the lock of that collection.
+    """
+    switch_type = _container_resolver.get_type(data)
+    if switch_type == "SYNCEDCOLLECTION":
+        return data()
+    elif switch_type == "MAPPING":
+        return {key: _detach(value) for key, value in data.items()}
+    elif switch_type == "SEQUENCE":
+        return [_detach(value) for value in data]
+    return data
+
+
 class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 7b5d08b..1c8668e 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -11,7 +11,7 @@ give a dict-like API to a synchronized data structure.
 from collections.abc import Mapping, MutableMapping
 
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _detach, _sc_resolver
 
 # Identifies mappings, which are the base type for this class.
 _mapping_resolver = AbstractTypeResolver(
@@ -180,6 +180,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def __setitem__(self, key, value):
+        value = _detach(value)
         self._validate({key: value})
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(value, parent=self)
@@ -199,6 +200,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
+            data = _detach(data)
             self._validate(data)
             with self._locked():
                 self._prepare_overwrite()
@@ -244,13 +246,16 @@ class SyncedDict(SyncedCollection, MutableMapping):
         # Convert sequence of key, value pairs to dict before validation
         if _mapping_resolver.get_type(other) != "MAPPING":
             other = dict(other)
+        # The order here is important to ensure that the promised sequence of
+        # overrides is obeyed: kwargs > other > existing data.
+        new_data = _detach({**other, **kwargs})
+        self._validate(new_data)
 
         with self._load_and_save:
-            # The order here is important to ensure that the promised sequence of
-            # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **new_data})
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = _detach(default)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index d74e576..d7c4f6e 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -16,7 +16,7 @@ from ..numpy_utils import (
     _numpy_cache_blocklist,
 )
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _detach, _sc_resolver
 
 # Identifies sequences, which are the base type for this class.
 _sequence_resolver = AbstractTypeResolver(
@@ -195,6 +195,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
+            data = _detach(data)
             self._validate(data)
             with self._locked():
                 self._prepare_overwrite()
@@ -208,6 +209,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        value = _detach(value)
         self._validate(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(data=value, parent=self)
@@ -232,7 +234,7 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-        iterable_data = list(iterable)
+        iterable_data = _detach(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data += [
@@ -241,18 +243,20 @@ class SyncedList(SyncedCollection, MutableSequence):
         return self
 
     def insert(self, index, item):  # noqa: D102
+        item = _detach(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.insert(index, self._from_base(data=item, parent=self))
 
     def append(self, item):  # noqa: D102
+        item = _detach(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.append(self._from_base(data=item, parent=self))
 
     def extend(self, iterable):  # noqa: D102
         # Convert iterable to a list to ensure generators are exhausted only once
-        iterable_data = list(iterable)
+        iterable_data = _detach(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data.extend(
@@ -260,6 +264,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def remove(self, value):  # noqa: D102
+        value = _detach(value)
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
-- 
2.43.0


From 03083f595c112f9c130085536cbd08ec3a2de0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 11/29] fix: keep the lock of the old file when a collection
 changes its filename

Setting the filename removed the lock of the previous file, so every other
collection bound to that file failed with a KeyError.  It also replaced the
lock of the new file while others could be holding it.  Threads that waited
for the old lock now continue with the one of the new file.
---
 .../backends/collection_json.py               | 18 ++++++-----
 .../data_types/synced_collection.py           | 30 +++++++++++++++----
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..31baabf 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -218,15 +218,17 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
-        with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
-
+        # Other collections may still be using the lock of the previous file, so
+        # it must be kept. The current lock must be looked up before the filename
+        # changes because that determines the lock.
+        self._acquire_thread_lock()
+        lock = self._thread_lock
+        try:
             self._filename = value
-
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
+            if self._supports_threading:
+                self._register_lock()
+        finally:
+            lock.__exit__(None, None, None)
 
     @property
     def _lock_id(self):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index a99d9c4..c612c2b 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -67,7 +67,7 @@ class _LoadAndSave:
         self._collection = collection
 
     def __enter__(self):
-        self._collection._thread_lock.__enter__()
+        self._collection._acquire_thread_lock()
         try:
             self._collection._load()
         except BaseException:
@@ -224,9 +224,7 @@ class SyncedCollection(Collection):
             self._load_and_save = self._LoadSaveType(self)
 
         if self._supports_threading:
-            with self._cls_lock:
-                if self._lock_id not in self._locks:
-                    self._locks[self._lock_id] = RLock()
+            self._register_lock()
 
     @classmethod
     def _register_validators(cls):
@@ -314,6 +312,25 @@ class SyncedCollection(Collection):
         cls._thread_lock = _NullContext()
         cls._threading_support_is_active = False
 
+    def _register_lock(self):
+        """Ensure that there is a lock for the resource of this collection."""
+        with self._cls_lock:
+            if self._lock_id not in self._locks:
+                self._locks[self._lock_id] = RLock()
+
+    def _acquire_thread_lock(self):
+        """Acquire the lock of the resource that this collection refers to.
+
+        A collection may be pointed to a different resource while a thread waits
+        for the lock of the previous one.
+        """
+        while True:
+            lock = self._thread_lock
+            lock.__enter__()
+            if lock is self._thread_lock:
+                break
+            lock.__exit__(None, None, None)
+
     @property
     def _lock_id(self):
         raise NotImplementedError(
@@ -513,8 +530,11 @@ class SyncedCollection(Collection):
             with self._root._locked():
                 yield
         else:
-            with self._thread_lock:
+            self._acquire_thread_lock()
+            try:
                 yield
+            finally:
+                self._thread_lock.__exit__(None, None, None)
 
     @contextmanager
     def _loaded(self):
-- 
2.43.0


From 4f9c7544dd70d77791e0ff74d2e8701e540486a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 12/29] fix: buffer the root collection when entering the
 context of a nested one

The buffered context of a nested collection had no effect because nested
collections are loaded and saved by their root.
---
 synced_collections/buffers/buffered_collection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index b519848..6a524ea 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -82,9 +82,15 @@ class BufferedCollection(SyncedCollection):
 
     """
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-        self.buffered = _CounterFuncContext(self._flush)
+    def __init__(self, parent=None, *args, **kwargs):
+        # Buffering is the responsibility of the root collection. This attribute
+        # must be defined prior to calling the superclass constructors because
+        # those may create nested collections.
+        if parent is None:
+            self.buffered = _CounterFuncContext(self._flush)
+        else:
+            self.buffered = parent.buffered
+        super().__init__(parent=parent, *args, **kwargs)
 
     @classmethod
     def __init_subclass__(cls):
-- 
2.43.0


From e8526dc280c53cb6d87d1c06a6451c1aa9bd7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 13/29] fix: return the data in the default implementation of
 _load_from_buffer

---
 synced_collections/buffers/buffered_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index 6a524ea..249e77a 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -170,7 +170,7 @@ class BufferedCollection(SyncedCollection):
             data in the resource.
 
         """  # noqa: E501
-        self._load_from_resource()
+        return self._load_from_resource()
 
     @property
     def _is_buffered(self):
-- 
2.43.0


From b545304458fe67b0a769bc9f39bffa07003254a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 14/29] fix: decide whether to write a buffered file from the
 buffered contents

With several collections on one file, the flush looked at the data of the
first collection to be flushed.  If that one had only been read, the changes
made through the others were dropped.
---
 .../buffers/serialized_file_buffered_collection.py         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..3baeebe 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,12 +109,11 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
-
                     # If the contents have not been changed since the initial read,
-                    # we don't need to rewrite it.
+                    # we don't need to rewrite it. The data of this object may be
+                    # outdated if the buffer was modified by another one.
                     try:
-                        if self._hash(blob) != cached_data["hash"]:
+                        if self._hash(cached_data["contents"]) != cached_data["hash"]:
                             # Validate that the file hasn't been changed by
                             # something else.
                             if cached_data["metadata"] != self._get_file_metadata():
-- 
2.43.0


From 225df3828e2c768f80b2ba22f0051cb5905b4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 15/29] fix: give each memory-buffered collection its own data

Collections on one file shared a single data object while buffered.  The nested
collections in it belonged to whichever collection created them, handles to
nested collections of the others were silently disconnected, and leaving the
buffered state cleared data that was still in use or, for lists, failed.  Now
the buffer refers to the collection that was used last, and another collection
takes over the data when it is used.

The flush also runs under the buffer lock now.  A forced flush no longer
accepts an external modification as the new reference state: data that was only
read keeps its metadata, and data in conflict is dropped from the buffer.
---
 .../buffers/memory_buffered_collection.py     | 131 +++++++++---------
 1 file changed, 62 insertions(+), 69 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 0772244..4a59048 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -4,12 +4,8 @@
 """A standardized buffering implementation for file-based backends.
 
 The buffering method implemented here involves a single buffer of references to
-in-memory objects containing data. These objects are the base types of a given
-:class:`~.SyncedCollection` type, e.g. a dict for all dict-like collections,
-and are the underlying data stores for those types. This buffering method
-exploits the fact that all mutable collection types in Python are references,
-so modifying one such collection results in modifying all of them, thereby
-removing any need for more complicated synchronization protocols.
+the collections that contain the data in memory. As long as a file is only
+accessed through one collection, no data has to be copied or encoded.
 """
 
 from ..errors import MetadataError
@@ -20,12 +16,11 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
     """A :class:`~.SyncedCollection` that defers all I/O when buffered.
 
     This class extends the :class:`~.FileBufferedCollection` and implements a
-    concrete storage mechanism in which collections store a reference to their
-    data in a buffer. This method takes advantage of the reference-based semantics
-    of built-in Python mutable data types like dicts and lists. All collections
-    referencing the same file are pointed to the same underlying data store in
-    buffered mode, allowing all changes in one to be transparently reflected in
-    the others. To further improve performance, the buffer size is determined
+    concrete storage mechanism in which the buffer stores a reference to the
+    collection that holds the current data of a file in memory. If several
+    collections reference the same file, the data is transferred to the one being
+    used, so that all changes in one are transparently reflected in the others.
+    To further improve performance, the buffer size is determined
     only based on the number of modified collections stored, not the total number.
     As a result, the maximum capacity is only reached when a large number of
     modified collections are stored, and unmodified collections are only removed
@@ -103,60 +98,59 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         # Different files in the buffer can be safely flushed simultaneously,
         # but a given file can only be flushed on one thread at once.
-        if not self._is_buffered or force:
-            try:
-                cached_data = type(self)._buffer[self._filename]
-            except KeyError:
-                # If we got to this point, it means that another collection
-                # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
-            else:
-                # If the contents have not been changed since the initial read,
-                # we don't need to rewrite it.
+        with self._buffer_lock:
+            if not self._is_buffered or force:
+                try:
+                    cached_data = type(self)._buffer[self._filename]
+                except KeyError:
+                    # There are valid reasons for nothing to be in the cache (the
+                    # object was never actually accessed during global buffering,
+                    # multiple collections pointing to the same file, etc).
+                    return
+                # In a force flush the data is retained in the buffer.
+                retain = False
                 try:
-                    # Validate that the file hasn't been changed by
-                    # something else.
+                    # If the contents have not been changed since the initial read,
+                    # we don't need to rewrite it.
                     if cached_data["modified"]:
+                        # Validate that the file hasn't been changed by
+                        # something else.
                         if cached_data["metadata"] != self._get_file_metadata():
-                            raise MetadataError(self._filename, cached_data["contents"])
+                            raise MetadataError(
+                                self._filename, cached_data["collection"]._to_base()
+                            )
+                        self._update_from(cached_data["collection"])
                         self._save_to_resource()
-                finally:
-                    # Whether or not an error was raised, the cache must be
-                    # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
-                    if cached_data["modified"]:
-                        type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
-                        del type(self)._buffer[self._filename]
-                    else:
                         # Have to update the metadata on a force flush because
                         # we could modify this item again later, leading to
                         # another (possibly forced) flush afterwards that will
                         # appear invalid if the metadata isn't updated to the
                         # metadata after the current flush.
-                        cached_data["metadata"] = self._get_file_metadata()
+                        if force:
+                            cached_data["metadata"] = self._get_file_metadata()
+                    retain = force
+                finally:
+                    # If an error was raised, the cache must be cleared to ensure
+                    # a valid final buffer state. Otherwise, data that is retained
+                    # is no longer modified relative to its representation on disk.
+                    if cached_data["modified"]:
+                        type(self)._CURRENT_BUFFER_SIZE -= 1
                         cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
+                    if not retain:
+                        del type(self)._buffer[self._filename]
+
+    def _update_from(self, collection):
+        """Update the data to match another collection bound to the same file.
+
+        Parameters
+        ----------
+        collection : SharedMemoryFileBufferedCollection
+            The collection holding the current data.
+
+        """
+        if collection is not self:
             with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
+                self._update(collection._to_base())
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -175,15 +169,6 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             else:
                 self._root._load()
 
-    def _prepare_overwrite(self):
-        """Prepare for replacing the entire data of this collection."""
-        if self._root is None and self._is_buffered:
-            if self._filename in type(self)._buffer:
-                # All collections sharing the buffered data must be changed.
-                self._load_from_buffer()
-        else:
-            super()._prepare_overwrite()
-
     def _save_to_buffer(self):
         """Store data in buffer.
 
@@ -203,7 +188,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
             if self._filename in type(self)._buffer:
-                # Always track all instances pointing to the same data.
+                # This collection holds the current data from now on.
+                type(self)._buffer[self._filename]["collection"] = self
 
                 # If all we had to do is set the flag, it could be done without any
                 # check, but we also need to increment the number of modified
@@ -232,15 +218,22 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             underlying file.
 
         """
-        super()._load_from_buffer()
+        with self._buffer_lock:
+            super()._load_from_buffer()
 
-        # Set local data to the version in the buffer.
-        self._data = type(self)._buffer[self._filename]["contents"]
+            # If another collection pointing to the same file was used more
+            # recently, its data must be transferred to this one.
+            cached_data = type(self)._buffer[self._filename]
+            self._update_from(cached_data["collection"])
+            cached_data["collection"] = self
 
     def _initialize_data_in_buffer(self, modified=False):
         """Create the initial entry for the data in the cache.
 
         Stores the following information:
+            - The collection that holds the current data of the file. If there is
+              more than one collection for the same file, the data is transferred
+              between them when a different one is used.
             - The metadata provided by :meth:`~._get_file_metadata`. Used to
               check if a file has been modified on disk since it was loaded
               into the buffer.
@@ -258,7 +251,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         metadata = self._get_file_metadata()
         type(self)._buffer[self._filename] = {
-            "contents": self._data,
+            "collection": self,
             "metadata": metadata,
             "modified": modified,
         }
-- 
2.43.0


From b332488b83d72340d222d34850c2b894735cf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 16/29] fix: keep track of all buffered collections in and
 after a flush

A flush replaced the list of buffered collections without holding the lock, so
collections added by other threads in the meantime were never flushed.  After an
error it forgot the collections that were still buffered.
---
 .../buffers/file_buffered_collection.py       | 75 +++++++++----------
 .../buffers/memory_buffered_collection.py     |  3 +-
 .../serialized_file_buffered_collection.py    |  7 +-
 3 files changed, 41 insertions(+), 44 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index ba270d1..58890cc 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -229,8 +229,8 @@ class FileBufferedCollection(BufferedCollection):
             buffering implementation.
 
         """
-        cls._BUFFER_CAPACITY = new_capacity
         with cls._BUFFER_LOCK:
+            cls._BUFFER_CAPACITY = new_capacity
             if new_capacity < cls._CURRENT_BUFFER_SIZE:
                 cls._flush_buffer(force=True)
 
@@ -274,8 +274,7 @@ class FileBufferedCollection(BufferedCollection):
                     self._update(data)
                 self._initialize_data_in_buffer()
 
-        # This storage can be safely updated every time on every thread.
-        type(self)._buffered_collections[id(self)] = self
+            type(self)._buffered_collections[id(self)] = self
 
     @abstractmethod
     def _initialize_data_in_buffer(self):
@@ -323,42 +322,42 @@ class FileBufferedCollection(BufferedCollection):
         # independently decide whether or not to flush based on whether it's
         # still buffered (if buffered contexts are nested).
         remaining_collections = {}
-        while True:
-            # This is the only part that needs to be locked; once items are
-            # removed from the buffer they can be safely handled on separate
-            # threads.
-            with cls._BUFFER_LOCK:
-                try:
-                    (
-                        col_id,
-                        collection,
-                    ) = cls._buffered_collections.popitem()
-                except KeyError:
-                    break
-
-            if collection._is_buffered and not force:
-                # If force is false, then the only way for the collection to
-                # still be buffered is if there are nested buffered contexts.
-                # In that case, flush_buffer was called due to the exit of an
-                # inner buffered context, and we shouldn't do anything with
-                # this object, so we just put it back in the list *and* skip
-                # the flush.
-                remaining_collections[col_id] = collection
-                continue
-            elif force and retain_in_force:
-                # If force is true, the collection must still be buffered.
-                # In that case, the retain_in_force parameter controls whether
-                # we we want to put it back in the remaining_collections list
-                # after flushing any writes.
-                remaining_collections[col_id] = collection
-
+        # The whole flush has to be locked because other threads may be adding
+        # collections to the buffer.
+        with cls._BUFFER_LOCK:
             try:
-                collection._flush(force=force)
-            except (OSError, MetadataError) as err:
-                issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+                while True:
+                    try:
+                        (
+                            col_id,
+                            collection,
+                        ) = cls._buffered_collections.popitem()
+                    except KeyError:
+                        break
+
+                    if collection._is_buffered and not force:
+                        # If force is false, then the only way for the collection to
+                        # still be buffered is if there are nested buffered contexts.
+                        # In that case, flush_buffer was called due to the exit of an
+                        # inner buffered context, and we shouldn't do anything with
+                        # this object, so we just put it back in the list *and* skip
+                        # the flush.
+                        remaining_collections[col_id] = collection
+                        continue
+                    elif force and retain_in_force:
+                        # If force is true, the collection must still be buffered.
+                        # In that case, the retain_in_force parameter controls whether
+                        # we we want to put it back in the remaining_collections list
+                        # after flushing any writes.
+                        remaining_collections[col_id] = collection
+
+                    try:
+                        collection._flush(force=force)
+                    except (OSError, MetadataError) as err:
+                        issues[collection._filename] = err
+            finally:
+                cls._buffered_collections.update(remaining_collections)
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 4a59048..5695c07 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -175,8 +175,6 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -187,6 +185,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
             if self._filename in type(self)._buffer:
                 # This collection holds the current data from now on.
                 type(self)._buffer[self._filename]["collection"] = self
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index 3baeebe..de47915 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -195,8 +195,6 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -207,6 +205,7 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
             if self._filename in type(self)._buffer:
                 # Always track all instances pointing to the same data.
                 blob = self._encode(self._data)
@@ -255,8 +254,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
             # another thread.
             blob = type(self)._buffer[self._filename]["contents"]
 
-        if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
-            type(self)._flush_buffer(force=True)
+            if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
+                type(self)._flush_buffer(force=True)
         return self._decode(blob)
 
     def _initialize_data_in_buffer(self):
-- 
2.43.0


From 7ab84abb9e651cf62090dd4e2c019c3a1d260d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:41 +0000
Subject: [PATCH 17/29] fix: restore the buffer capacity if flushing the buffer
 fails

An error in the flush at the end of a backend-wide buffered context skipped
resetting the capacity, and the value to restore remained stored for the next
context.  An error while entering the context left the backend buffered.
---
 .../buffers/file_buffered_collection.py       | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 58890cc..b09ece4 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -40,19 +40,26 @@ class _FileBufferedContext(_CounterFuncContext):
         return self
 
     def __enter__(self):
+        new_buffer_capacity, self._buffer_capacity = self._buffer_capacity, None
+        original_buffer_capacity = None
+        if new_buffer_capacity is not None:
+            original_buffer_capacity = self._cls.get_buffer_capacity()
+            try:
+                self._cls.set_buffer_capacity(new_buffer_capacity)
+            except BaseException:
+                # The exit method is not called if entering fails.
+                self._cls.set_buffer_capacity(original_buffer_capacity)
+                raise
         super().__enter__()
-        if self._buffer_capacity is not None:
-            self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
-        else:
-            self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
+        self._original_buffer_capacitys.append(original_buffer_capacity)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
-        original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        try:
+            super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            original_buffer_capacity = self._original_buffer_capacitys.pop()
+            if original_buffer_capacity is not None:
+                self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
-- 
2.43.0


From 535d60f685a6eca0aab4c07d0223256c8815d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 18/29] fix: check the keys of mappings inside sequences in
 require_string_key

The validator compared with a type name that its resolver never returns, so it
did not look into sequences.
---
 synced_collections/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From d4547e2c9b3dbc6bcd231d3720d591e98185ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 19/29] fix: reject keys with dots in data added to
 attribute-access lists

The list classes of the attribute-access families only used the validators for
plain JSON, so dicts with dots in their keys could be added through a list.
---
 synced_collections/backends/collection_json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 31baabf..a56dfce 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -597,6 +597,8 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -613,6 +615,8 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -629,3 +633,5 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
-- 
2.43.0


From 2f29b8fe04c01e34020f0026f73f013e936a5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 20/29] fix: reject zero-dimensional NumPy arrays of
 unsupported types

Arrays without dimensions were accepted regardless of their content, for
instance dates or arbitrary objects.
---
 synced_collections/backends/collection_json.py | 4 ++++
 synced_collections/validators.py               | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index a56dfce..88b35f5 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -105,6 +105,10 @@ def json_attr_dict_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        elif not isinstance(data.item(), (str, int, float, bool, type(None))):
+            raise TypeError(
+                f"NumPy data of type {data.dtype} is not JSON serializable."
+            )
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable."
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 6f33b02..06197b6 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -141,6 +141,10 @@ def json_format_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        elif not isinstance(data.item(), (str, int, float, bool, type(None))):
+            raise TypeError(
+                f"NumPy data of type {data.dtype} is not JSON serializable."
+            )
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable"
-- 
2.43.0


From 270fcfaf9d84439fd5900f204481449aa567a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 21/29] fix: only cache how a type is resolved if it is the
 same for all objects

Subclasses of NumPy arrays and proxy objects were classified like the first
object of their type, so the result depended on what was processed before.
---
 synced_collections/utils.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..a6eaba3 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -65,7 +65,7 @@ class AbstractTypeResolver:
     def __init__(self, abstract_type_identifiers, cache_blocklist=None):
         self.abstract_type_identifiers = abstract_type_identifiers
         self.type_map = {}
-        self.cache_blocklist = cache_blocklist if cache_blocklist is not None else ()
+        self.cache_blocklist = () if cache_blocklist is None else tuple(cache_blocklist)
 
     def get_type(self, obj):
         """Get the type string corresponding to this data type.
@@ -85,15 +85,21 @@ class AbstractTypeResolver:
         """
         obj_type = type(obj)
         enum_type = None
-        try:
-            enum_type = self.type_map[obj_type]
-        except KeyError:
-            for data_type, id_func in self.abstract_type_identifiers.items():
-                if id_func(obj):
-                    enum_type = data_type
-                    break
-            if obj_type not in self.cache_blocklist:
-                self.type_map[obj_type] = enum_type
+        # The result may only be cached if it is the same for all objects of this
+        # type. That is not the case for subclasses of blocked types and for
+        # objects that pretend to be of another type, e.g. weak reference proxies.
+        use_cache = obj.__class__ is obj_type and not issubclass(
+            obj_type, self.cache_blocklist
+        )
+        if use_cache and obj_type in self.type_map:
+            return self.type_map[obj_type]
+
+        for data_type, id_func in self.abstract_type_identifiers.items():
+            if id_func(obj):
+                enum_type = data_type
+                break
+        if use_cache:
+            self.type_map[obj_type] = enum_type
 
         return enum_type
 
-- 
2.43.0


From 82e8f1939f3df2fc8501da7abca096ee1c9be669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 22/29] fix: raise AttributeError when deleting a missing
 attribute

---
 synced_collections/data_types/attr_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..8185631 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -62,4 +62,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From bcbe6526635f4864982f153a403bac3e4719ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:07 +0000
Subject: [PATCH 23/29] fix: leave the buffer alone if the file cannot be read

Overwriting a collection while buffered added the new data to the buffer
before reading the file.  If the file could not be read, the data stayed in the
buffer marked as unchanged, although the operation had failed.
---
 .../buffers/serialized_file_buffered_collection.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index de47915..d96b84e 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -223,8 +223,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 # the current metadata, so the only extra work here is to modify
                 # the hash after it's called (since it uses self._to_base() to get
                 # the data to initialize the cache with).
-                self._initialize_data_in_buffer()
                 disk_data = self._load_from_resource()
+                self._initialize_data_in_buffer()
                 type(self)._buffer[self._filename]["hash"] = self._hash(
                     self._encode(disk_data)
                 )
-- 
2.43.0


From 15e06dd6172a92735b954538e9fe38d165fe5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:26 +0000
Subject: [PATCH 24/29] fix: create missing files when flushing serialized
 buffers

If a file did not exist, buffered writes whose combined effect left the
contents unchanged did not create it. Other objects bound to the same file
then kept showing outdated data because there was nothing to load.
---
 .../buffers/serialized_file_buffered_collection.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index d96b84e..3655338 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -213,6 +213,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 buffer_size_change = len(blob) - len(cached_data["contents"])
                 type(self)._CURRENT_BUFFER_SIZE += buffer_size_change
                 cached_data["contents"] = blob
+                if cached_data["metadata"] is None:
+                    # A file that does not exist must be created by any write,
+                    # including those that do not change the contents.
+                    cached_data["hash"] = None
             else:
                 # The only methods that could safely call sync without a load are
                 # destructive operations like `reset` or `clear` that completely
-- 
2.43.0


From 49d0496b9bd75d1907e55fa53bcc1572effe2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:26 +0000
Subject: [PATCH 25/29] fix: determine file metadata before loading a file into
 the buffer

A change of the file between loading it and determining its metadata was not
detected, so that flushing the buffer overwrote it silently.
---
 synced_collections/buffers/file_buffered_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index b09ece4..76b8382 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -275,11 +275,14 @@ class FileBufferedCollection(BufferedCollection):
                 # is valid either since the resource could have been modified
                 # between when _data was last updated and when this load is being
                 # called. As a result, we have to load from the resource here to be
-                # safe.
+                # safe. The metadata has to be determined first so that changes
+                # of the file made after loading it are always detected.
+                metadata = self._get_file_metadata()
                 data = self._load_from_resource()
                 with self._thread_lock, self._suspend_sync:
                     self._update(data)
                 self._initialize_data_in_buffer()
+                type(self)._buffer[self._filename]["metadata"] = metadata
 
             type(self)._buffered_collections[id(self)] = self
 
-- 
2.43.0


From 4c890012c15333c7c271cba8c317915103b650ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:50 +0000
Subject: [PATCH 26/29] fix: reject non-string keys inside of Zarr lists

Mappings added to a ZarrDict must have string keys, but the same mappings were
accepted if they were added to a ZarrList or to a list nested in a ZarrDict.
---
 synced_collections/backends/collection_zarr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..a15d899 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -211,6 +211,8 @@ class ZarrList(ZarrCollection, SyncedList):
 
     """
 
+    _validators = (require_string_key,)
+
     def __init__(self, group=None, name=None, data=None, parent=None, *args, **kwargs):
         super().__init__(
             group=group, name=name, data=data, parent=parent, *args, **kwargs
-- 
2.43.0


From ab578050ccdfdc1ddfe04b1eb28186e217767785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:35 +0000
Subject: [PATCH 27/29] fix: flush all buffered files even if one of them
 cannot be written

An error other than a metadata conflict or an I/O error, such as data that
cannot be serialized, ended the flush of a buffer early. The remaining files
were left in the buffer after the buffered context had exited.
---
 synced_collections/buffers/file_buffered_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 76b8382..c2e1e69 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -17,7 +17,7 @@ from threading import RLock
 from typing import Dict, Tuple, Union
 
 from ..data_types.synced_collection import _LoadAndSave
-from ..errors import BufferedError, MetadataError
+from ..errors import BufferedError
 from ..utils import _CounterFuncContext, _NullContext
 from .buffered_collection import BufferedCollection
 
@@ -363,7 +363,8 @@ class FileBufferedCollection(BufferedCollection):
 
                     try:
                         collection._flush(force=force)
-                    except (OSError, MetadataError) as err:
+                    except Exception as err:
+                        # The other collections must be flushed regardless.
                         issues[collection._filename] = err
             finally:
                 cls._buffered_collections.update(remaining_collections)
-- 
2.43.0


From 485fa0fe6c6d5c90620a1873cd470360923c8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:05 +0000
Subject: [PATCH 28/29] fix: accept any iterable in slice assignment of lists

Assigning to a slice of a built-in list accepts any iterable.  Synced lists
raised TypeError for iterators and views.  ZarrList stored the elements of an
iterator without checking them, so dictionaries with other than string keys were
accepted.
---
 synced_collections/data_types/synced_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index d7c4f6e..fb4b3af 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -209,6 +209,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        if isinstance(key, slice):
+            # Convert input to a list so that iterators work as well as iterables.
+            value = list(value)
         value = _detach(value)
         self._validate(value)
         with self._load_and_save, self._suspend_sync:
-- 
2.43.0


From 088bff3cf94ddbd8a6bc2a71cd1093c4114197c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:58:35 +0000
Subject: [PATCH 29/29] fix: register the lock of a file before a collection is
 renamed to it

While the filename of a collection was changed, another thread that used the
same collection could look up the lock of the new file before it existed. The
operation then failed with a KeyError. If it happened while the previous lock
was being given back, that lock stayed locked.

Register the lock of the new file first, and change the filename after that.
---
 synced_collections/backends/collection_json.py     |  6 ++++--
 synced_collections/data_types/synced_collection.py | 10 +++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 88b35f5..8c0bd37 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -228,9 +228,11 @@ class JSONCollection(SyncedCollection):
         self._acquire_thread_lock()
         lock = self._thread_lock
         try:
-            self._filename = value
+            # Threads that wait for the lock look it up again as soon as the
+            # filename changes.
             if self._supports_threading:
-                self._register_lock()
+                self._register_lock(value)
+            self._filename = value
         finally:
             lock.__exit__(None, None, None)
 
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index c612c2b..6459a84 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -224,7 +224,7 @@ class SyncedCollection(Collection):
             self._load_and_save = self._LoadSaveType(self)
 
         if self._supports_threading:
-            self._register_lock()
+            self._register_lock(self._lock_id)
 
     @classmethod
     def _register_validators(cls):
@@ -312,11 +312,11 @@ class SyncedCollection(Collection):
         cls._thread_lock = _NullContext()
         cls._threading_support_is_active = False
 
-    def _register_lock(self):
-        """Ensure that there is a lock for the resource of this collection."""
+    def _register_lock(self, lock_id):
+        """Ensure that there is a lock for the resource with the given id."""
         with self._cls_lock:
-            if self._lock_id not in self._locks:
-                self._locks[self._lock_id] = RLock()
+            if lock_id not in self._locks:
+                self._locks[lock_id] = RLock()
 
     def _acquire_thread_lock(self):
         """Acquire the lock of the resource that this collection refers to.
-- 
2.43.0

