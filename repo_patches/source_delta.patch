From 6c8a277bf93018cdf8a1f60eca71c710f8960db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 01/61] fix: report an unclosed quote as a ParseError instead
 of a raw ValueError

---
 marsh/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/parse.py b/marsh/parse.py
index cf832f7..973f4b7 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -355,7 +355,7 @@ def string(
         chars: List[str] = []
         if peek(source) in QUOTE_CHARACTERS:
             quote = pop(source)
-        while (char := peek(source)) not in terminal_chars or quote:
+        while source and ((char := peek(source)) not in terminal_chars or quote):
             if char == ESCAPE:
                 if len(source) < 2:
                     raise ParseError(
-- 
2.43.0


From 76b94ebb48a3f346e8cd9c9d08b226b9c0230211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 02/61] fix: parse integers exactly instead of rounding them
 through a float

---
 marsh/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 973f4b7..1fb47a4 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -414,6 +414,11 @@ def terminal(
         raise err
     if quoted or not value:
         return value
+    try:
+        # going through a float would round large integers
+        return int(value)
+    except ValueError:
+        pass
     try:
         fl_value = float(value)
         if fl_value.is_integer():
-- 
2.43.0


From a9917d98d6f5abda81941a322c0632b7a1e38e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 03/61] fix: combine values at nested paths instead of
 replacing them

---
 marsh/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/element.py b/marsh/element.py
index c66f366..56ca2e0 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -245,6 +245,7 @@ def override(
                 element=element.get(field, {}),
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
     elif marsh.utils.is_sequence(element):
         try:
@@ -266,6 +267,7 @@ def override(
                 element=element[index],
                 value=value,
                 path=remaining_path,
+                combine=combine,
             )
         element = tuple(element)
     else:
-- 
2.43.0


From dd1c1f0286e9e74008ac686e8eb2df14d8521147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 04/61] fix: keep a deterministic key order when merging
 mappings

---
 marsh/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/element.py b/marsh/element.py
index 56ca2e0..82aa831 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -146,7 +146,7 @@ def _merge(
                 element_b.get(key, marsh.MISSING),
                 concatenate=concatenate,
             )
-            for key in set(element_a).union(element_b)
+            for key in dict.fromkeys((*element_a, *element_b))
         }
     elif (
         concatenate
-- 
2.43.0


From d7160ec77318abe06872eff4659becde8170eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 05/61] fix: escape the first field of a path built with
 prepend or append

---
 marsh/element.py | 4 ++--
 marsh/path.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index 82aa831..efd6169 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -311,7 +311,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[field] = remove(
@@ -342,7 +342,7 @@ def remove(
                 raise marsh.errors.PathError(
                     'terminal element encountered, can '
                     f'not traverse the remaining path: "{remaining_path}"',
-                    path=field,
+                    path=marsh.path.escape_field(field),
                 )
             with marsh.errors.prepend(field):
                 element[index] = remove(
diff --git a/marsh/path.py b/marsh/path.py
index e69d458..1317f94 100644
--- a/marsh/path.py
+++ b/marsh/path.py
@@ -144,7 +144,7 @@ def prepend(
         The prepended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
@@ -171,7 +171,7 @@ def append(
         The appended path.
     """
     if not path:
-        return field
+        return escape_field(field, delimiter=delimiter)
     if not field:
         return path
     return delimiter.join(
-- 
2.43.0


From d915eced1b43bd43984401bf7ef65c8f4b92dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 06/61] fix: let a path without fields refer to the root
 element

---
 marsh/element.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/marsh/element.py b/marsh/element.py
index efd6169..ea22502 100644
--- a/marsh/element.py
+++ b/marsh/element.py
@@ -73,9 +73,9 @@ def iterative_select(
         path='',
         remaining_path=path,
     )
-    if not path:
-        return
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        return
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
@@ -219,7 +219,8 @@ def override(
     Returns:
         A copy of the element with a new value set for the specified path.
     """
-    if not path:
+    field, remaining_path = marsh.path.head(path)
+    if not field:
         if combine:
             if (
                 marsh.utils.is_mapping(element)
@@ -235,7 +236,6 @@ def override(
             ):
                 return tuple(element) + tuple(value)
         return value
-    field, remaining_path = marsh.path.head(path)
     if marsh.utils.is_missing(element):
         element = {}
     if marsh.utils.is_mapping(element):
@@ -293,9 +293,9 @@ def remove(
     Returns:
         A copy of the element with the value for the specified path removed.
     """
-    if not path:
-        raise ValueError('no path specified')
     field, remaining_path = marsh.path.head(path)
+    if not field:
+        raise ValueError('no path specified')
     if marsh.utils.is_mapping(element):
         if field not in element:
             raise marsh.errors.PathError(field)
-- 
2.43.0


From fa513d2348a92f7d2ec4e58ef626a74e75b2ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 07/61] fix: keep SafeDict consistent when replacing or
 deleting keys

---
 marsh/utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 8f0338a..bfb96fb 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -590,6 +590,7 @@ class SafeDict(MutableMapping[_K, _V]):
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
                 if k == key:
                     self._unhashable_cache[-i] = (key, value)
+                    break
             else:
                 self._order.append((False, len(self._unhashable_cache)))
                 self._unhashable_cache.append((key, value))
@@ -606,24 +607,30 @@ class SafeDict(MutableMapping[_K, _V]):
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
                         if k == key:
-                            for order_idx, (hashable, idx) in enumerate(self._order):
-                                if hashable and idx == key_idx:
-                                    self._order.pop(order_idx)
-                                    break
+                            self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
                 return
         except TypeError:
-            for key_idx, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
+            for key_idx, (k, _) in enumerate(self._unhashable_cache):
                 if k == key:
-                    self._unhashable_cache.pop(-key_idx)
-                    for order_idx, (hashable, idx) in enumerate(self._order):
-                        if not hashable and idx == key_idx:
-                            self._order.pop(order_idx)
-                            break
+                    self._unhashable_cache.pop(key_idx)
+                    self._remove_order(False, key_idx)
                     return
         raise KeyError(key)
 
+    def _remove_order(
+        self,
+        hashable: bool,
+        index: int,
+    ) -> None:
+        # indices succeeding the removed index are shifted down
+        self._order = [
+            (h, i - 1 if h == hashable and i > index else i)
+            for h, i in self._order
+            if (h, i) != (hashable, index)
+        ]
+
     def _ordered_iter(
         self,
         reverse: bool,
-- 
2.43.0


From 81819661c88ce263e3c636a735f44fe95bb5a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 08/61] fix: compare cached hash keys by value, not only by
 hash

---
 marsh/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/utils.py b/marsh/utils.py
index bfb96fb..cd92e59 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -492,6 +492,7 @@ class _CachedHashKey(list):
         self,
         value,
     ):
+        super().__init__(value)
         self._hash = hash(value)
 
     def __hash__(self):
-- 
2.43.0


From 058186d642d8a5e31d5a7e39c6d52c7e780a34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 09/61] fix: let interleaved iterations of a cached iterator
 see every item

---
 marsh/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index cd92e59..29df4ea 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -9,6 +9,7 @@ import inspect
 import os
 import shutil
 import sys
+import threading
 import weakref
 import types
 import typing
@@ -978,16 +979,23 @@ class IterableFromIterator(Generic[_T]):
         self,
         iterator: Iterator[_T],
     ) -> None:
-        self._iter = iterator
+        self._iter = iter(iterator)
         self._cache: list = []
+        self._lock = threading.RLock()
 
     def __iter__(
         self,
     ) -> Iterator[_T]:
-        yield from self._cache
-        for item in self._iter:
-            self._cache.append(item)
-            yield item
+        index = 0
+        while True:
+            with self._lock:
+                if index == len(self._cache):
+                    try:
+                        self._cache.append(next(self._iter))
+                    except StopIteration:
+                        return
+            yield self._cache[index]
+            index += 1
 
     def __bool__(
         self,
-- 
2.43.0


From 0bbd6655f30937984942c83ef05cd5f1d9a5818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 10/61] fix: detect values that already exist in a priority
 order

---
 marsh/utils.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 29df4ea..0def5a0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1221,12 +1221,25 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         values = sorted(self._values, key=lambda x: x.index)
         del self._values[:]
         for value in values:
-            self.add(
-                value=value.value,
-                priority=value.priority,
-                lower_priority=value.relative_priority.lower,
-                higher_priority=value.relative_priority.higher,
-            )
+            self._insert(value)
+
+    def _insert(
+        self,
+        wrapped: '_WrappedValue[_T]',
+    ) -> None:
+        # find insertion index for value based on priorities.
+        # circular priorities with a length larger than 1 do
+        # not raise an error.
+        idx = 0
+        for i, position in enumerate(self._values):
+            if wrapped.relative_priority > position.relative_priority:
+                break
+            if (
+                wrapped.relative_priority < position.relative_priority
+                or wrapped.priority < position.priority
+            ):
+                idx = i + 1
+        self._values.insert(idx, wrapped)
 
     @overload
     def add(
@@ -1271,7 +1284,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
 
             # does the value to be added already exist?
             for i in range(len(self._values)):
-                if self._values[i] == wrapped:
+                if self._values[i].value == wrapped.value:
                     if replace:
                         del self._values[i]
                         break
@@ -1279,19 +1292,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
                         f'{wrapped} already exists.',
                     )
 
-            # find insertion index for value based on priorities.
-            # circular priorities with a length larger than 1 do
-            # not raise an error.
-            idx = 0
-            for i, position in enumerate(self._values):
-                if wrapped.relative_priority > position.relative_priority:
-                    break
-                if (
-                    wrapped.relative_priority < position.relative_priority
-                    or wrapped.priority < position.priority
-                ):
-                    idx = i + 1
-            self._values.insert(idx, wrapped)
+            self._insert(wrapped)
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 63106542252ae5d6ecf8a7c15a4f86ae59c783a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 11/61] fix: honour all relative priorities of a value when it
 is added

---
 marsh/utils.py | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 0def5a0..d6c9cfc 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1230,16 +1230,38 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
         # find insertion index for value based on priorities.
         # circular priorities with a length larger than 1 do
         # not raise an error.
+        relations = [
+            wrapped.relative_priority.get_relation(position.relative_priority)
+            for position in self._values
+        ]
         idx = 0
         for i, position in enumerate(self._values):
-            if wrapped.relative_priority > position.relative_priority:
+            if relations[i].higher:
                 break
-            if (
-                wrapped.relative_priority < position.relative_priority
-                or wrapped.priority < position.priority
-            ):
+            if relations[i].lower or wrapped.priority < position.priority:
                 idx = i + 1
+        misplaced = any(relation.lower for relation in relations[idx:])
         self._values.insert(idx, wrapped)
+        if misplaced:
+            self._sort_relations()
+
+    def _sort_relations(
+        self,
+    ) -> None:
+        # Move values as little as possible while making sure that
+        # no value precedes another value of higher relative priority.
+        remaining = self._values
+        self._values = []
+        while remaining:
+            for i, value in enumerate(remaining):
+                if not any(
+                    value.relative_priority < other.relative_priority
+                    for other in remaining
+                ):
+                    break
+            else:
+                i = 0
+            self._values.append(remaining.pop(i))
 
     @overload
     def add(
@@ -1286,13 +1308,19 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             for i in range(len(self._values)):
                 if self._values[i].value == wrapped.value:
                     if replace:
-                        del self._values[i]
+                        replaced = self._values.pop(i)
                         break
                     raise ValueError(
                         f'{wrapped} already exists.',
                     )
-
-            self._insert(wrapped)
+            else:
+                i, replaced = 0, None
+            try:
+                self._insert(wrapped)
+            except ValueError:
+                if replaced is not None:
+                    self._values.insert(i, replaced)
+                raise
             return value
         if value is None:
             return wrapper
-- 
2.43.0


From 173f133cf77082b493c891ffc02d4c524e4a793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 12/61] fix: support unions written with the | operator
 regardless of what was unmarshaled before

---
 marsh/schema/core/unmarshal.py |  3 +--
 marsh/schema/types/union.py    |  4 +---
 marsh/utils.py                 | 18 +++++++++++++++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index d821b95..dd801ee 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,7 +16,6 @@ from typing import (
     Type,
     TypeVar,
     Union,
-    get_origin,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -229,7 +228,7 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if get_origin(value) is Union:
+        if marsh.utils.is_union(value):
             return cls._build(
                 value=value,
                 *args,
diff --git a/marsh/schema/types/union.py b/marsh/schema/types/union.py
index b030b08..36ddb98 100644
--- a/marsh/schema/types/union.py
+++ b/marsh/schema/types/union.py
@@ -1,9 +1,7 @@
 from typing import (
     Any,
     TypeVar,
-    Union,
     get_args,
-    get_origin,
 )
 
 import marsh
@@ -36,7 +34,7 @@ class UnionUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_T]):
         value: Any,
     ) -> bool:
         return bool(
-            get_origin(value) is Union
+            marsh.utils.is_union(value)
             and get_args(value),
         )
 
diff --git a/marsh/utils.py b/marsh/utils.py
index d6c9cfc..12056d0 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1866,6 +1866,22 @@ def is_typing_alias(
     )
 
 
+def is_union(
+    value: Any,
+) -> bool:
+    """Determine if a value is a :data:`typing.Union`.
+
+    This includes unions created with the ``|`` operator in python 3.10+.
+
+    Arguments:
+        value: Any value to evaluate.
+
+    Returns:
+        ``True`` if value is a union, else ``False``.
+    """
+    return get_origin(value) in (Union, getattr(types, 'UnionType', Union))
+
+
 def is_optional(
     type_: Any,
 ) -> bool:
@@ -1880,7 +1896,7 @@ def is_optional(
     """
     if is_annotated(type_):
         type_ = get_origin(type_)
-    return get_origin(type_) is Union \
+    return is_union(type_) \
         and type(None) in get_args(type_)
 
 
-- 
2.43.0


From 1332fed24a1d25950e3420371115c21648168be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 13/61] fix: treat only types being built as recursive so
 earlier builds do not change later ones

---
 marsh/schema/core/unmarshal.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index dd801ee..f4e6499 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -252,15 +252,19 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
         except TypeError:
             pass
         recursive_cache = cls._recursive_cache[threading.get_ident()]
-        if recursive_cache:
-            try:
-                return recursive_cache[value].build(value, *args, **kwargs)
-            except KeyError:
-                pass
+        try:
+            return recursive_cache[value].build(value, *args, **kwargs)
+        except KeyError:
+            pass
         result = cls.registry.match(value)
-        result.insert(0, RecursiveReferenceUnmarshalSchema)
-        recursive_cache[value] = result
-        return result[1:].build(value, *args, **kwargs)
+        recursive_cache[value] = base.SchemaSelection(
+            [RecursiveReferenceUnmarshalSchema],
+        ) + result
+        try:
+            return result.build(value, *args, **kwargs)
+        finally:
+            # only types that are currently being built are recursive
+            del recursive_cache[value]
 
     @base.caches.new_callable_cache(
         name='marsh.schema.UnmarshalSchema.__new__',
-- 
2.43.0


From a6c6335dcc94f7d5b6aa35348efc612836a473e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 14/61] fix: do not share cached schemas between types that
 only compare equal

---
 marsh/schema/core/unmarshal.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index f4e6499..da9c1e9 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -16,6 +16,7 @@ from typing import (
     Type,
     TypeVar,
     Union,
+    get_args,
     overload,
 )
 from typing_extensions import TypeAlias
@@ -105,6 +106,27 @@ def resolve_type(
     return value
 
 
+def is_order_sensitive(
+    value: Any,
+) -> bool:
+    """Determine if a type contains a union or literal.
+
+    Such types are equal regardless of the order of their arguments, while
+    the order is what determines how they are unmarshaled.
+
+    Arguments:
+        value: The type.
+
+    Returns:
+        ``True`` if the type is, or has an argument that is, order sensitive.
+    """
+    return (
+        marsh.utils.is_union(value)
+        or marsh.utils.is_literal(value)
+        or any(map(is_order_sensitive, get_args(value)))
+    )
+
+
 class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
 
     def cache_clear(
@@ -228,7 +250,12 @@ class UnmarshalSchemaMeta(base.SchemaMeta['UnmarshalSchema']):
             return type(object).__call__(cls, value, *args, **kwargs)
         metacls: 'UnmarshalSchemaMeta' = type(cls)
         value = resolve_type(value, cache=metacls.type_cache)
-        if marsh.utils.is_union(value):
+        has_default = not (
+            marsh.utils.is_missing(kwargs.get('default', marsh.MISSING))
+            and marsh.utils.is_missing(kwargs.get('default_factory', marsh.MISSING))
+        )
+        if has_default or is_order_sensitive(value):
+            # these can compare equal without being interchangeable
             return cls._build(
                 value=value,
                 *args,
-- 
2.43.0


From 2c6cb549ca5efb78c970462e947f272ea5b6f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 15/61] fix: drop stale namespace caches whenever a namespace
 or component changes

---
 marsh/schema/namespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 123187a..34183ca 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -138,6 +138,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
         name,
     ) -> None:
         del self._namespaces[name]
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
 
     def __contains__(
         self,
@@ -224,6 +226,8 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
                 base=base,
             )
         )
+        self.cache_clear(full=True)
+        marsh.schema.UnmarshalSchema.cache_clear()
         return namespace
 
     def cache_clear(
@@ -445,6 +449,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
         self,
     ) -> None:
         """Clear the cache."""
+        self._schemas.clear()
         self.find_class.cache_clear()  # type: ignore
         self.find_subclasses.cache_clear()  # type: ignore
 
@@ -562,7 +567,6 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                     f'a component with the name "{name}" '
                     'already exists',
                 )
-            self._schemas.pop(name, None)
 
         def _register(
             component: Type[_T],
@@ -574,7 +578,7 @@ class Namespace(Mapping[str, core.unmarshal.UnmarshalSchema[_T]]):
                 )
             self.components[name] = component
             self.cache_clear()
-            self._namespaces.cache_clear()
+            self._namespaces.cache_clear(full=True)
             marsh.schema.UnmarshalSchema.cache_clear()
             return component
 
-- 
2.43.0


From 355d291c62541fb7c186cd5bd51a7f305b00c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 16/61] fix: make a newly registered schema effective for types
 that were already unmarshaled

---
 marsh/schema/core/unmarshal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index da9c1e9..41a7a71 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -178,14 +178,18 @@ class UnmarshalSchemaRegistry(base.SchemaRegistry['UnmarshalSchema']):
         Type['UnmarshalSchema'],
     ]:
         def wrapper(_schema):
-            self.cache_clear()
-            return self.priority.add(
+            result = self.priority.add(
                 _schema,
                 priority=priority,
                 lower_priority=lower_priority,
                 higher_priority=higher_priority,
                 replace=replace,
             )
+            # any cached schema may now be matched differently
+            base.caches.cache_clear()
+            for namespace in marsh.schema.namespace.Namespaces().values():
+                namespace.cache_clear()
+            return result
         if schema is None:
             return wrapper
         return wrapper(schema)
-- 
2.43.0


From f3cc706f824af4a3d524a021266e0179f93fe792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 17/61] fix: suggest close matches for values that are not
 strings

---
 marsh/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 12056d0..39bcf68 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1356,7 +1356,7 @@ class WeakTypeCache:
     ) -> Iterator[Any]:
         data = getattr(self._types, 'data', None)
         if isinstance(data, dict):
-            for ref in reversed(data):
+            for ref in reversed(tuple(data)):
                 type_ = ref()
                 if type_ is not None:
                     yield type_
@@ -2414,8 +2414,8 @@ def get_closest(
         The closest candidate. :data:`None` if no candidate is close.
     """
     close = difflib.get_close_matches(
-        value,
-        candidates,
+        str(value),
+        map(str, candidates),
         n=1,
     )
     if close:
-- 
2.43.0


From 802c57dde3dff1619f9bd748b5f258945b4bf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 18/61] fix: bind sequence and call-site arguments in the
 parameter order of the callable

---
 marsh/schema/template/callable.py   |  8 +++++++-
 marsh/schema/template/structured.py | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 24911c9..83ad3ba 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -37,6 +37,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
         except Exception:
             annotations = {}
         positional = {}
+        positional_or_keyword = {}
         keyword = {}
         var_positional = None
         var_keyword = None
@@ -56,7 +57,7 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             if param.kind == param.POSITIONAL_ONLY:
                 positional[name] = schema
             elif param.kind == param.POSITIONAL_OR_KEYWORD:
-                keyword[name] = schema
+                positional_or_keyword[name] = schema
             elif param.kind == param.KEYWORD_ONLY:
                 keyword[name] = schema
             elif param.kind == param.VAR_POSITIONAL:
@@ -64,9 +65,14 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             elif param.kind == param.VAR_KEYWORD:
                 var_keyword = (name, schema)
         self.positional = tuple(positional)
+        self.keyword = tuple(keyword)
         schemas = {}
         schemas.update(positional)
+        schemas.update(positional_or_keyword)
         if var_positional:
+            # values can only be passed on to variable positional
+            # arguments if all preceding arguments are positional
+            self.positional = tuple(schemas)
             name, schema = var_positional
             schemas[f'*{name}'] = schema
         schemas.update(keyword)
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 20294ef..f895d6d 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -31,6 +31,9 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     positional: Sequence[str] = ()
     """Names of attributes that can only be used as positional arguments."""
 
+    keyword: Sequence[str] = ()
+    """Names of attributes that can only be used as keyword arguments."""
+
     def __str__(
         self,
     ) -> str:
@@ -59,6 +62,8 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
     ) -> None:
         if args and kwargs:
             for i, name in enumerate(self.schemas):
+                if name.startswith('*') or name in self.keyword:
+                    break
                 if i < len(args) and name in kwargs:
                     raise TypeError(
                         'received the same argument twice '
@@ -127,7 +132,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
         default_args = list(default_args or ())
         default_kwargs = dict(default_kwargs or {})
         fields: Dict[str, UnmarshalSchema.Doc.Field] = {}
-        for i, (name, schema) in enumerate(self.schemas.items()):
+        for name, schema in self.schemas.items():
             fields[name] = UnmarshalSchema.Doc.Field(
                 doc=schema.doc(depth - 1),
                 type=schema.doc_field_type(),
@@ -145,7 +150,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 if default_args:
                     default = str(default_args)
                     default_args = []
-            if i < len(default_args):
+            if default_args and name not in self.keyword:
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
@@ -203,11 +208,11 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     args.extend(default_args)
                     default_args = []
                 else:
-                    if element_list:
+                    if element_list and name not in self.keyword:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
                     else:
-                        if default_args:
+                        if default_args and name not in self.keyword:
                             value = default_args.pop(0)
                             if name not in element_dict:
                                 kwargs[name] = value
-- 
2.43.0


From c95444ead4ce71489520f3d7e0866b7b2cae9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 19/61] fix: report invalid slices as unmarshal errors and
 accept every slice the pattern allows

---
 marsh/schema/types/slice.py | 2 +-
 marsh/schema/types/tuple.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/slice.py b/marsh/schema/types/slice.py
index 53819b0..f282664 100644
--- a/marsh/schema/types/slice.py
+++ b/marsh/schema/types/slice.py
@@ -115,7 +115,7 @@ class SliceUnmarshalSchema(marsh.schema.UnmarshalSchema[slice]):
                     type=self.value,
                 )
             args = tuple(
-                int(index) if index else None
+                int(''.join(index.split())) if index.strip() else None
                 for index
                 in element.split(':')
             )
diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index 4172504..b00bc25 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -58,4 +58,5 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
         *args,
         **kwargs,
     ) -> tuple:
-        return tuple(args, **kwargs)
+        # values of a mapping input have the index as key
+        return tuple(args) + tuple(kwargs.values())
-- 
2.43.0


From f3eef4a9ff6293e5ec57591c48d8a1bd511dc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 20/61] fix: use the default value of datetime and protocol
 fields when no input is given

---
 marsh/schema/types/datetime.py | 2 ++
 marsh/schema/types/protocol.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 4899039..8dfd99d 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -114,6 +114,8 @@ class DatetimeUnmarshalSchema(
         element: marsh.element.ElementType,
     ) -> Union[datetime.time, datetime.date]:
         if marsh.utils.is_missing(element):
+            if self.has_default():
+                return self.get_default()
             raise marsh.errors.MissingValueError(
                 type=self.value,
             )
diff --git a/marsh/schema/types/protocol.py b/marsh/schema/types/protocol.py
index da5a8dc..e16fa81 100644
--- a/marsh/schema/types/protocol.py
+++ b/marsh/schema/types/protocol.py
@@ -90,6 +90,8 @@ class ProtocolUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
         self,
         element: marsh.element.ElementType,
     ) -> Any:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         for type_ in self.matched:
             try:
                 return marsh.unmarshal(type_, element)
-- 
2.43.0


From 7b6c621280bc73d427a1af909f16c0a74dbed317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 21/61] fix: report timestamps that are out of range as
 unmarshal errors

---
 marsh/schema/types/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 8dfd99d..2c884ae 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -137,7 +137,8 @@ class DatetimeUnmarshalSchema(
                 ts,
                 datetime.timezone.utc,
             )
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
+            # not a timestamp or out of range
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
         if dt is None:
-- 
2.43.0


From 0e47ef019b5cc71caa01c425a37a289280abb94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 22/61] fix: report unhashable mapping keys as unmarshal errors

---
 marsh/schema/template/mapping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marsh/schema/template/mapping.py b/marsh/schema/template/mapping.py
index c07ad22..eb9a03f 100644
--- a/marsh/schema/template/mapping.py
+++ b/marsh/schema/template/mapping.py
@@ -64,14 +64,15 @@ class MappingUnmarshalSchema(UnmarshalSchema[_T]):
                 element=element,
                 type=self.value,
             )
-        prepared_input = {}
+        items = []
         for key in element.keys():
             with marsh.errors.prepend(key):
                 casted_key = self.key_schema.unmarshal(key)
                 casted_value = self.value_schema.unmarshal(element[key])
-            prepared_input[casted_key] = casted_value
+            items.append((casted_key, casted_value))
         try:
-            return self.construct(prepared_input)
+            # keys are not necessarily hashable
+            return self.construct(dict(items))
         except marsh.errors.MarshError:
             raise
         except Exception as err:
-- 
2.43.0


From 365b61439e94e84c3d0b212055b1763589595c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 23/61] fix: marshal members of string enums into their string
 value

---
 marsh/schema/types/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/primitive.py b/marsh/schema/types/primitive.py
index e8566e6..fe355c3 100644
--- a/marsh/schema/types/primitive.py
+++ b/marsh/schema/types/primitive.py
@@ -44,7 +44,7 @@ class PrimitiveMarshalSchema(marsh.schema.MarshalSchema):
         elif isinstance(self.value, float):
             return float(self.value)
         else:
-            return str(self.value)
+            return str.__str__(self.value)
 
 
 @marsh.schema.register
-- 
2.43.0


From a69552f0310f1567b082c52e787a91055c25689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 24/61] fix: let the name of an enum member take precedence
 over the values of other members

---
 marsh/schema/types/enum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/marsh/schema/types/enum.py b/marsh/schema/types/enum.py
index c07abf6..d8f96d3 100644
--- a/marsh/schema/types/enum.py
+++ b/marsh/schema/types/enum.py
@@ -43,6 +43,18 @@ class EnumUnmarshalSchema(marsh.schema.template.UnionUnmarshalSchema[_E]):
             'enum values (the name or value).'
         )
 
+    def unmarshal(
+        self,
+        element: marsh.element.ElementType,
+    ) -> _E:
+        # the value of a member may be the name of another member,
+        # in which case the name takes precedence
+        if isinstance(element, str):
+            for schema in self.schemas:
+                if schema.value.name == element:
+                    return schema.value
+        return super().unmarshal(element)
+
 
 @marsh.schema.register
 class EnumValueMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From cab8c3231f7ab0be2cac3b8d4c6fb9a2ca7260cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 25/61] fix: keep annotations and forward references of
 structured type fields

---
 marsh/schema/template/callable.py |  7 ++--
 marsh/schema/types/annotated.py   |  3 ++
 marsh/schema/types/dataclass.py   |  8 ++--
 marsh/schema/types/namedtuple.py  |  3 +-
 marsh/schema/types/typeddict.py   |  7 ++--
 marsh/utils.py                    | 62 +++++++++++++++++++++++++++++++
 6 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 83ad3ba..222cda3 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     ForwardRef,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -31,9 +30,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
             )
         try:
             if inspect.isclass(self.value):
-                annotations = get_type_hints(self.value.__init__)
+                annotations = marsh.utils.get_annotated_type_hints(self.value.__init__)
             else:
-                annotations = get_type_hints(self.value)
+                annotations = marsh.utils.get_annotated_type_hints(self.value)
         except Exception:
             annotations = {}
         positional = {}
@@ -47,6 +46,8 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 or isinstance(param.annotation, (str, ForwardRef))
             ):
                 type_ = annotations.get(name, Any)
+            elif marsh.utils.has_forward_ref(param.annotation):
+                type_ = annotations.get(name, param.annotation)
             else:
                 type_ = param.annotation
             default = marsh.MISSING
diff --git a/marsh/schema/types/annotated.py b/marsh/schema/types/annotated.py
index 421794f..3f2cc06 100644
--- a/marsh/schema/types/annotated.py
+++ b/marsh/schema/types/annotated.py
@@ -145,6 +145,9 @@ class AnnotatedUnmarshalSchema(marsh.schema.UnmarshalSchema[Any]):
                     f' failed: {err}',
                 ) from err
         value = self.schema.unmarshal(element)
+        if isinstance(value, marsh.schema.types.typeddict.OptionalKeySentinel):
+            # there is no value to validate
+            return value
         for ann in annotations:
             try:
                 value = ann(value)
diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 2666e2b..0601471 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -3,11 +3,9 @@ import re
 import types
 from typing import (
     Any,
-    ForwardRef,
     Optional,
     Tuple,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -94,7 +92,9 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
     ) -> None:
         super().__init__(*args, **kwargs)
         try:
-            annotations = get_type_hints(marsh.utils.get_type(self.value))
+            annotations = marsh.utils.get_annotated_type_hints(
+                marsh.utils.get_type(self.value),
+            )
         except Exception:
             annotations = {}
         schemas = {}
@@ -103,7 +103,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
             type_: Any,
         ) -> Any:
             try:
-                if isinstance(type_, (str, ForwardRef)):
+                if marsh.utils.has_forward_ref(type_):
                     type_ = annotations.get(field.name, type_)
             except Exception:
                 pass
diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 38a2058..18811fb 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -4,7 +4,6 @@ from typing import (
     Any,
     Optional,
     TypeVar,
-    get_type_hints,
 )
 
 import marsh
@@ -73,7 +72,7 @@ class NamedTupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[
     ) -> None:
         super().__init__(*args, **kwargs)
         schemas = {}
-        annotations = get_type_hints(self.value)
+        annotations = marsh.utils.get_annotated_type_hints(self.value)
         for field in self.value._fields:
             with marsh.errors.prepend(field):
                 schemas[field] = marsh.schema.UnmarshalSchema(
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 8685153..380b7c9 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -14,7 +14,8 @@ from . import mapping
 _T = TypeVar('_T')
 
 
-class _Sentinel:
+class OptionalKeySentinel:
+    """Default value of an optional key, never part of the result."""
 
     def __str__(
         self,
@@ -57,8 +58,8 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         **kwargs,
     ) -> None:
         super().__init__(*args, **kwargs)
-        self._sentinel = _Sentinel()
-        annotations = get_type_hints(self.value)
+        self._sentinel = OptionalKeySentinel()
+        annotations = marsh.utils.get_annotated_type_hints(self.value)
         self.schemas = types.MappingProxyType(
             {
                 **{
diff --git a/marsh/utils.py b/marsh/utils.py
index 39bcf68..b443193 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -21,6 +21,7 @@ from typing import (
     DefaultDict,
     Dict,
     Final,
+    ForwardRef,
     Generic,
     Iterable,
     Iterator,
@@ -60,6 +61,7 @@ _LiteralTypes: list = []
 _LiteralStringTypes: list = []
 _TypeAliasTypes: list = []
 _IsTypedDict: list = []
+_KeyQualifierTypes: list = []
 
 
 for module in (typing, typing_extensions):
@@ -70,6 +72,9 @@ for module in (typing, typing_extensions):
         ('LiteralString', _LiteralStringTypes),
         ('TypeAlias', _TypeAliasTypes),
         ('is_typeddict', _IsTypedDict),
+        ('Required', _KeyQualifierTypes),
+        ('NotRequired', _KeyQualifierTypes),
+        ('ReadOnly', _KeyQualifierTypes),
     ):
         try:
             container.append(getattr(module, attr))
@@ -1788,6 +1793,63 @@ def get_annotations(
     return typing_extensions.get_args(value)[1:]
 
 
+def get_annotated_type_hints(
+    value: Any,
+) -> Dict[str, Any]:
+    """Get type hints with any :data:`typing.Annotated` retained.
+
+    Forward references are resolved. The qualifiers for the keys
+    of a typed dict (``Required``, ``NotRequired``) are not retained.
+
+    Arguments:
+        value: The class or callable to get type hints for.
+
+    Returns:
+        The type hints.
+    """
+    return {
+        name: _strip_key_qualifiers(type_)
+        for name, type_
+        in typing_extensions.get_type_hints(value, include_extras=True).items()
+    }
+
+
+def _strip_key_qualifiers(
+    type_: Any,
+) -> Any:
+    if is_annotated(type_):
+        annotations = tuple(get_annotations(type_))
+        inner_type = typing_extensions.get_args(type_)[0]
+        stripped_type = _strip_key_qualifiers(inner_type)
+        if stripped_type is inner_type:
+            return type_
+        return Annotated[(stripped_type, *annotations)]  # type: ignore
+    if typing_extensions.get_origin(type_) in _KeyQualifierTypes:
+        return _strip_key_qualifiers(typing_extensions.get_args(type_)[0])
+    return type_
+
+
+def has_forward_ref(
+    value: Any,
+) -> bool:
+    """Determine if a type is, or has an argument that is, a forward reference.
+
+    Arguments:
+        value: Any value to evaluate.
+
+    Returns:
+        ``True`` if value contains a forward reference, else ``False``.
+    """
+    if isinstance(value, (str, ForwardRef)):
+        return True
+    if is_literal(value):
+        return False
+    args = get_args(value)
+    if is_annotated(value):
+        args = args[:1]
+    return any(map(has_forward_ref, args))
+
+
 def is_protocol(
     value: Any,
 ) -> bool:
-- 
2.43.0


From db474cf46c3682921b631f1b4c30b72f807cf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 26/61] fix: restore the working directory when the entry point
 function fails

---
 marsh/entry_point.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 02ac22a..79f11f5 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -229,9 +229,11 @@ class EntryPoint:
             with marsh.errors.maybe_handle_error(handle_create_dir_error):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
-        yield
-        if prev_path is not None:
-            os.chdir(prev_path)
+        try:
+            yield
+        finally:
+            if prev_path is not None:
+                os.chdir(prev_path)
 
     def maybe_print_help(
         self,
-- 
2.43.0


From 191ad6a26a0b5f6c7e49f28c577b8e13f470aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 27/61] fix: report failures to create the output directory

---
 marsh/entry_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/entry_point.py b/marsh/entry_point.py
index 79f11f5..bcb6ed7 100644
--- a/marsh/entry_point.py
+++ b/marsh/entry_point.py
@@ -226,7 +226,7 @@ class EntryPoint:
                 print(f'failed to create output directory {path}: {error}')
                 sys.exit(1)
 
-            with marsh.errors.maybe_handle_error(handle_create_dir_error):
+            with marsh.errors.maybe_handle_error(handle_create_dir_error, OSError):
                 os.makedirs(path, exist_ok=True)
             os.chdir(path)
         try:
-- 
2.43.0


From 441b703e7a0f8ad5c087d1cca9f6a09987f75f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 28/61] fix: write plain YAML to stdout

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 93c492b..9389bdc 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -343,7 +343,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From ac4b5c75156db2289b5fa2c64169b0dbeeacf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 29/61] fix: accept whitespace between an item and the end of a
 sequence

---
 marsh/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/parse.py b/marsh/parse.py
index 1fb47a4..a3768ee 100644
--- a/marsh/parse.py
+++ b/marsh/parse.py
@@ -526,6 +526,7 @@ def sequence(
                     terminal_chars=',' + closing_char,
                 ),
             )
+            consume_whitespace(source)
         consume_whitespace(source)
         if peek(source) != closing_char:
             raise ParseError(
-- 
2.43.0


From 66eee9d77cb6c5929cfbcb0b8756d388c59d8628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 30/61] fix: casting to a subclass of int gives an instance of
 that subclass

---
 marsh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index b443193..cbea4d4 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2215,9 +2215,9 @@ def cast_primitive(
     if issubclass(type_, bool):
         return primitive_to_bool(value)
     if issubclass(type_, int) and isinstance(value, str):
-        return str_to_int(value)
+        return type_(str_to_int(value))
     if issubclass(type_, int) and isinstance(value, float):
-        return float_to_int(value)
+        return type_(float_to_int(value))
     return type_(value)
 
 
-- 
2.43.0


From 8d1f4e170892117bf34dc0e35e8be7efaec4a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 31/61] fix: accept arguments that are named self

---
 marsh/schema/argument.py            | 1 +
 marsh/schema/template/structured.py | 1 +
 marsh/schema/types/tuple.py         | 1 +
 marsh/schema/types/typeddict.py     | 1 +
 4 files changed, 4 insertions(+)

diff --git a/marsh/schema/argument.py b/marsh/schema/argument.py
index d991acc..f4085ad 100644
--- a/marsh/schema/argument.py
+++ b/marsh/schema/argument.py
@@ -19,6 +19,7 @@ class ArgumentsUnmarshalSchema(
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> Arguments:
diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index f895d6d..21925e6 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -249,6 +249,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> _T:
diff --git a/marsh/schema/types/tuple.py b/marsh/schema/types/tuple.py
index b00bc25..0a08def 100644
--- a/marsh/schema/types/tuple.py
+++ b/marsh/schema/types/tuple.py
@@ -55,6 +55,7 @@ class TupleUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[tuple
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> tuple:
diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index 380b7c9..a939415 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -99,6 +99,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
 
     def construct(
         self,
+        /,
         *args,
         **kwargs,
     ) -> _T:
-- 
2.43.0


From d7c63d1bbcb5737128f8dfbd9cb6b663c41403dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 32/61] fix: bind the items of a sequence to the keys of a
 typed dict in declared order

---
 marsh/schema/types/typeddict.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/marsh/schema/types/typeddict.py b/marsh/schema/types/typeddict.py
index a939415..c935290 100644
--- a/marsh/schema/types/typeddict.py
+++ b/marsh/schema/types/typeddict.py
@@ -62,19 +62,17 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         annotations = marsh.utils.get_annotated_type_hints(self.value)
         self.schemas = types.MappingProxyType(
             {
-                **{
-                    name: marsh.schema.UnmarshalSchema(
+                name: (
+                    marsh.schema.UnmarshalSchema(
                         annotations[name],
+                        default=self._sentinel,
                     )
-                    for name in self.required_keys
-                },
-                **{
-                    name: marsh.schema.UnmarshalSchema(
+                    if name in self.optional_keys
+                    else marsh.schema.UnmarshalSchema(
                         annotations[name],
-                        default=self._sentinel,
                     )
-                    for name in self.optional_keys
-                },
+                )
+                for name in get_type_hints(self.value)
             },
         )
 
@@ -103,14 +101,7 @@ class TypedDictUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         *args,
         **kwargs,
     ) -> _T:
-        if args and not kwargs:
-            kwargs = {
-                key: value
-                for key, value
-                in zip(get_type_hints(self.value), args)
-            }
-            args = ()
-        mapping = dict(*args, **kwargs)
+        mapping = {**dict(zip(self.schemas, args)), **kwargs}
         for key, value in tuple(mapping.items()):
             if value is self._sentinel:
                 if key in self.optional_keys:
-- 
2.43.0


From 5cef9502a334dd6e3bb06ef0b0e0bea794a0a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 33/61] fix: let a missing value of type None take its declared
 default

---
 marsh/schema/types/none.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marsh/schema/types/none.py b/marsh/schema/types/none.py
index 81b7502..f21e7c3 100644
--- a/marsh/schema/types/none.py
+++ b/marsh/schema/types/none.py
@@ -80,6 +80,8 @@ class NoneUnmarshalSchema(marsh.schema.UnmarshalSchema[None]):
         self,
         element: marsh.element.ElementType,
     ) -> None:
+        if marsh.utils.is_missing(element) and self.has_default():
+            return self.get_default()
         if element is None or marsh.utils.is_missing(element):
             return None
         raise marsh.errors.UnmarshalError(
-- 
2.43.0


From 2e0984a2a59942ab0899036f5b701ab0effaaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 34/61] fix: do not bind items of a sequence to keyword-only
 dataclass fields

---
 marsh/schema/types/dataclass.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 0601471..6905491 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -147,6 +147,12 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                     ),
                 )
         self.schemas = types.MappingProxyType(schemas)
+        self.keyword = tuple(
+            field.name
+            for field in dataclasses.fields(self.value)
+            + get_init_var_fields(self.value)
+            if getattr(field, 'kw_only', False)
+        )
 
     @classmethod
     def match(
-- 
2.43.0


From 28fae221acc6d2f7924f8f75fe3425b17271d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 35/61] fix: bind items of a sequence to dataclass fields and
 init-only variables in declared order

---
 marsh/schema/types/dataclass.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index 6905491..a372790 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -125,11 +125,13 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 return resolve_type(type_.type)
             return type_
 
-        for field in (
+        init_fields = (
             dataclasses.fields(self.value)
             + get_init_var_fields(self.value)
-        ):
-            if not field.init:
+        )
+        # the parameters of `__init__` are in the order of declaration
+        for field in getattr(self.value, _FIELDS).values():
+            if field not in init_fields or not field.init:
                 continue
             with marsh.errors.prepend(field.name):
                 type_ = resolve_type(field.type)
@@ -149,8 +151,7 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
         self.schemas = types.MappingProxyType(schemas)
         self.keyword = tuple(
             field.name
-            for field in dataclasses.fields(self.value)
-            + get_init_var_fields(self.value)
+            for field in init_fields
             if getattr(field, 'kw_only', False)
         )
 
-- 
2.43.0


From 481f9e72ad9b9e786648672f30a74e8bcf695fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 36/61] fix: report keyword arguments that are not strings as
 unmarshal errors

---
 marsh/schema/template/structured.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 21925e6..ebbac4f 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -200,6 +200,15 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                             kwargs[key] = value
                     for key in tuple(element_dict):
                         with marsh.errors.prepend(key):
+                            if not isinstance(key, str):
+                                raise marsh.errors.UnmarshalError(
+                                    (
+                                        'keyword arguments must be strings, got: '
+                                        f'{marsh.utils.get_type_name(key)}'
+                                    ),
+                                    element=element,
+                                    type=self.value,
+                                )
                             kwargs[key] = schema.unmarshal(element_dict.pop(key))
                 elif name.startswith('*'):
                     for i in range(len(element_list)):
-- 
2.43.0


From d2c3535817dcdfe564afc1bfe878367eb13c26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 37/61] fix: let items of a sequence override call-site keyword
 arguments of callables with variable keywords

---
 marsh/schema/template/structured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index ebbac4f..399e1d6 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -220,6 +220,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                     if element_list and name not in self.keyword:
                         args.append(schema.unmarshal(element_list.pop(0)))
                         default_args and default_args.pop(0)
+                        default_kwargs.pop(name, None)
                     else:
                         if default_args and name not in self.keyword:
                             value = default_args.pop(0)
-- 
2.43.0


From 295e68c779914cf1e51a8494a899876a36e33974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 38/61] fix: resolve string annotations of callable instances,
 partials and classes without __init__

---
 marsh/schema/template/callable.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/template/callable.py b/marsh/schema/template/callable.py
index 222cda3..1f906df 100644
--- a/marsh/schema/template/callable.py
+++ b/marsh/schema/template/callable.py
@@ -1,7 +1,9 @@
+import functools
 import inspect
 import types
 from typing import (
     Any,
+    Callable,
     ForwardRef,
     TypeVar,
 )
@@ -13,6 +15,27 @@ from . import structured
 _T = TypeVar('_T')
 
 
+def get_annotated_callable(
+    value: Callable,
+) -> Callable:
+    """Get the function or method that declares the annotations
+    of the parameters of a callable."""
+    if isinstance(value, functools.partial):
+        return get_annotated_callable(value.func)
+    if inspect.isclass(value):
+        if type(value).__call__ is not type.__call__:
+            return type(value).__call__
+        if (
+            value.__init__ is object.__init__
+            and value.__new__ is not object.__new__
+        ):
+            return value.__new__
+        return value.__init__
+    if inspect.isroutine(value) or hasattr(value, '__wrapped__'):
+        return value
+    return type(value).__call__
+
+
 class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
     """Unmarshals the arguments to a callable and uses them to call it."""
 
@@ -29,10 +52,9 @@ class CallableUnmarshalSchema(structured.StructuredUnmarshalSchema[_T]):
                 f'failed to retrieve callable signature: {self.value}',
             )
         try:
-            if inspect.isclass(self.value):
-                annotations = marsh.utils.get_annotated_type_hints(self.value.__init__)
-            else:
-                annotations = marsh.utils.get_annotated_type_hints(self.value)
+            annotations = marsh.utils.get_annotated_type_hints(
+                get_annotated_callable(self.value),
+            )
         except Exception:
             annotations = {}
         positional = {}
-- 
2.43.0


From 92881d713c689dd736ffb9598e83fe545886bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 39/61] fix: do not drop call-site arguments that a callable
 does not take

---
 marsh/schema/template/structured.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 399e1d6..6bb4aeb 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -255,6 +255,16 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 element=element,
                 type=self.value,
             )
+        if default_args:
+            raise TypeError(
+                'received too many arguments through '
+                f'`default_args` ({len(default_args)}).',
+            )
+        for name in default_kwargs:
+            raise TypeError(
+                'received an unexpected argument through '
+                f'`default_kwargs`: {name}',
+            )
         return self.construct(*args, **kwargs)
 
     def construct(
-- 
2.43.0


From c91e05a2ab39f55bc80d52198748dc284119be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 40/61] fix: marshal keys of mappings like other values

---
 marsh/schema/types/generic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/generic.py b/marsh/schema/types/generic.py
index d021ff9..15e5951 100644
--- a/marsh/schema/types/generic.py
+++ b/marsh/schema/types/generic.py
@@ -46,10 +46,22 @@ class GenericMappingMarshalSchema(marsh.schema.MarshalSchema):
         self,
     ) -> dict:
         return {
-            str(key): marsh.marshal(self.value[key])
+            self.marshal_key(key): marsh.marshal(self.value[key])
             for key in self.value.keys()
         }
 
+    @staticmethod
+    def marshal_key(
+        key: Any,
+    ) -> str:
+        try:
+            element = marsh.marshal(key)
+        except marsh.errors.MarshalError:
+            return str(key)
+        if marsh.utils.is_primitive(element):
+            return str(element)
+        return str(key)
+
 
 @marsh.schema.register(priority=GENERIC_PRIORITY)
 class GenericSequenceMarshalSchema(marsh.schema.MarshalSchema):
-- 
2.43.0


From b610d62ceebb7b8c3770de18cb75ad5616413553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 41/61] fix: keep the order of keys in written YAML configs

---
 marsh/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 9389bdc..0067ea3 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -133,7 +133,7 @@ class YAMLConfigIO(ConfigSchema):
         element: marsh.element.ElementType,
     ) -> None:
         with open(self.value, 'w') as fp:
-            yaml.safe_dump(element, fp)
+            yaml.safe_dump(element, fp, sort_keys=False)
 
     def load(
         self,
@@ -145,7 +145,7 @@ class YAMLConfigIO(ConfigSchema):
         self,
         element: marsh.element.ElementType,
     ) -> str:
-        return yaml.safe_dump(element)
+        return yaml.safe_dump(element, sort_keys=False)
 
     def loads(
         self,
@@ -343,7 +343,7 @@ def write(
             If not specified, stdout is used.
     """
     if path == '-':
-        yaml.safe_dump(config, sys.stdout)
+        yaml.safe_dump(config, sys.stdout, sort_keys=False)
     else:
         ConfigSchema(path).dump(config)
 
-- 
2.43.0


From 53ca4696a854acfbf2b827878fad71b81f4382b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:30 +0000
Subject: [PATCH 42/61] fix: read back datetimes with any offset from UTC

---
 marsh/schema/types/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marsh/schema/types/datetime.py b/marsh/schema/types/datetime.py
index 2c884ae..9012399 100644
--- a/marsh/schema/types/datetime.py
+++ b/marsh/schema/types/datetime.py
@@ -1,3 +1,4 @@
+import contextlib
 import datetime
 from typing import (
     Any,
@@ -141,6 +142,10 @@ class DatetimeUnmarshalSchema(
             # not a timestamp or out of range
             if isinstance(element, str):
                 dt = dateparser.parse(element, settings={'DATE_ORDER': 'DMY'})
+                if dt is None:
+                    # dateparser does not know every offset from UTC
+                    with contextlib.suppress(ValueError):
+                        dt = datetime.datetime.fromisoformat(element)
         if dt is None:
             raise marsh.errors.UnmarshalError(
                 'failed to parse timestamp',
-- 
2.43.0


From 6d2be2fe8aecff0a9d9d67da0b3d49eb377cf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 43/61] fix: evaluate forward references in the modules of the
 types used

---
 marsh/schema/core/unmarshal.py | 35 +++++++++++++++++++++++-----------
 marsh/utils.py                 |  9 ++++++++-
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/marsh/schema/core/unmarshal.py b/marsh/schema/core/unmarshal.py
index 41a7a71..87372f1 100644
--- a/marsh/schema/core/unmarshal.py
+++ b/marsh/schema/core/unmarshal.py
@@ -2,6 +2,7 @@ import collections
 import dataclasses
 import importlib
 import threading
+import types
 from typing import (
     Any,
     Callable,
@@ -43,6 +44,25 @@ skip_cache_types = {
 }
 
 
+def evaluate_forward_ref(
+    ref: ForwardRef,
+    module: str,
+) -> Any:
+    """Evaluate a forward reference in the namespace of a module.
+
+    Arguments:
+        ref: The forward reference.
+        module: Name of the module.
+
+    Returns:
+        The type.
+    """
+    return marsh.utils.get_annotated_type_hints(
+        types.SimpleNamespace(__annotations__={'ref': ref}),
+        vars(importlib.import_module(module)),
+    )['ref']
+
+
 def resolve_forward_ref(
     ref: ForwardRef,
     cache: Iterable[Any],
@@ -53,10 +73,7 @@ def resolve_forward_ref(
         mod, _, name = name.rpartition('.')
     if mod:
         try:
-            return ref._evaluate(
-                vars(importlib.import_module(mod)),
-                None,
-            )
+            return evaluate_forward_ref(ref, mod)
         except Exception:
             pass
     for type_ in cache:
@@ -64,13 +81,9 @@ def resolve_forward_ref(
             return type_
         if hasattr(type_, '__module__'):
             try:
-                return ref._evaluate(
-                    vars(
-                        importlib.import_module(
-                            type_.__module__ + (f'.{mod}' if mod else ''),
-                        ),
-                    ),
-                    None,
+                return evaluate_forward_ref(
+                    ref,
+                    type_.__module__ + (f'.{mod}' if mod else ''),
                 )
             except Exception:
                 pass
diff --git a/marsh/utils.py b/marsh/utils.py
index cbea4d4..dbaf8bf 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1795,6 +1795,7 @@ def get_annotations(
 
 def get_annotated_type_hints(
     value: Any,
+    namespace: Optional[Dict[str, Any]] = None,
 ) -> Dict[str, Any]:
     """Get type hints with any :data:`typing.Annotated` retained.
 
@@ -1803,6 +1804,8 @@ def get_annotated_type_hints(
 
     Arguments:
         value: The class or callable to get type hints for.
+        namespace: Where forward references are resolved, the
+            module of the class or callable if not given.
 
     Returns:
         The type hints.
@@ -1810,7 +1813,11 @@ def get_annotated_type_hints(
     return {
         name: _strip_key_qualifiers(type_)
         for name, type_
-        in typing_extensions.get_type_hints(value, include_extras=True).items()
+        in typing_extensions.get_type_hints(
+            value,
+            globalns=namespace,
+            include_extras=True,
+        ).items()
     }
 
 
-- 
2.43.0


From a2ca1f8817991813841b7203837508dfaa6183f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 44/61] fix: resolve the types of init-only variables in the
 module of their class

---
 marsh/schema/types/dataclass.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index a372790..d360020 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -1,4 +1,5 @@
 import dataclasses
+import importlib
 import re
 import types
 from typing import (
@@ -32,6 +33,24 @@ def get_init_var_fields(
     )
 
 
+def resolve_init_var_type(
+    dataclass: Any,
+    name: str,
+    init_var: dataclasses.InitVar,
+) -> Any:
+    type_ = init_var.type
+    for base in marsh.utils.get_type(dataclass).__mro__:
+        if name in vars(base).get('__annotations__', {}):
+            try:
+                return marsh.utils.get_annotated_type_hints(
+                    types.SimpleNamespace(__annotations__={name: type_}),
+                    vars(importlib.import_module(base.__module__)),
+                )[name]
+            except Exception:
+                break
+    return type_
+
+
 def is_generated_class_docstring(
     docstring: Optional[str],
 ) -> bool:
@@ -107,6 +126,13 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                     type_ = annotations.get(field.name, type_)
             except Exception:
                 pass
+            type_is_initvar = False
+            try:
+                type_is_initvar = isinstance(type_, dataclasses.InitVar)
+            except Exception:
+                pass
+            if type_is_initvar:
+                type_ = resolve_init_var_type(self.value, field.name, type_)
             type_is_str = False
             try:
                 type_is_str = isinstance(type_, str)
@@ -116,13 +142,6 @@ class DataclassUnmarshalSchema(marsh.schema.template.StructuredUnmarshalSchema[_
                 raise marsh.errors.MarshError(
                     f'failed to resolve type from string: "{type_}"',
                 )
-            type_is_initvar = False
-            try:
-                type_is_initvar = isinstance(type_, dataclasses.InitVar)
-            except Exception:
-                pass
-            if type_is_initvar:
-                return resolve_type(type_.type)
             return type_
 
         init_fields = (
-- 
2.43.0


From effa035063a576f613492cafc5a2ee016d0f5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 45/61] fix: keep the order of a safe dictionary when deleting
 a key that is not equal to itself

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index dbaf8bf..5a1b565 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -613,7 +613,7 @@ class SafeDict(MutableMapping[_K, _V]):
                 # already kept by the underlying dict.
                 if self._unhashable_cache:
                     for key_idx, k in enumerate(self._hashable_cache):
-                        if k == key:
+                        if k is key or k == key:
                             self._remove_order(True, key_idx)
                             break
                 del self._hashable_cache[key]
-- 
2.43.0


From 78482c08876c1538706ff40e7e1d1b0cf70d1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 46/61] fix: reject a priority relative to the value itself

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 5a1b565..9d3319a 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1038,7 +1038,7 @@ class PriorityOrder(Sequence[_T], Generic[_T]):
             lower: Set[int],
             higher: Set[int],
         ) -> None:
-            if lower.intersection(higher):
+            if lower.intersection(higher) or ident in lower or ident in higher:
                 raise ValueError(
                     f'circular priority in {name}',
                 )
-- 
2.43.0


From 4fd8245b4ab183b5ee8352b10baef49d20db1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 47/61] fix: marshal components whose name is the empty string
 with their name

---
 marsh/schema/namespace.py       | 2 +-
 marsh/schema/types/namespace.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/namespace.py b/marsh/schema/namespace.py
index 34183ca..3069213 100644
--- a/marsh/schema/namespace.py
+++ b/marsh/schema/namespace.py
@@ -310,7 +310,7 @@ class Namespaces(_SingletonMapping[str, 'Namespace']):
             A name if found, else :data:`None`.
         """
         for namespace in reversed(self._namespaces.values()):
-            if (name := namespace.find_class(cls)):
+            if (name := namespace.find_class(cls)) is not None:
                 return name
         return None
 
diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 117cd62..63cd2ab 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -32,7 +32,7 @@ class NamespaceMarshalSchema(marsh.schema.core.marshal.WrapperMarshalSchema):
         value: Any,
     ) -> bool:
         try:
-            return bool(cls.namespaces.find_class(marsh.utils.get_type(value)))
+            return cls.namespaces.find_class(marsh.utils.get_type(value)) is not None
         except Exception:
             return False
 
-- 
2.43.0


From e915f955a818dcd7e386d7634752d0a16e622ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 48/61] fix: find configs without an extension in the working
 directory

---
 marsh/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 0067ea3..9dc6712 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -184,7 +184,7 @@ def find_config(
                 f'could not find config {target} ',
             )
         return target
-    dpath = os.path.dirname(target)
+    dpath = os.path.dirname(target) or os.curdir
     if not os.path.isdir(dpath):
         raise marsh.errors.ConfigFileError(
             f'unable to browse directory "{dpath}" '
-- 
2.43.0


From 6ce7d99f77b2996fe9f39941a2a1b5ec6a80264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 49/61] fix: find configs of schemas that are registered late

---
 marsh/config.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marsh/config.py b/marsh/config.py
index 9dc6712..2bb9afe 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -223,7 +223,6 @@ def find_config(
     raise marsh.errors.ConfigFileError(err_msg)
 
 
-@marsh.utils.cache(maxsize=32, safe=False)
 def config_type_is_supported(
     path: str,
 ) -> bool:
-- 
2.43.0


From 3d14ca414b24547e1bbf22e968cb761fbac60a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 50/61] fix: show the configs of subdirectories in config trees

---
 marsh/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marsh/config.py b/marsh/config.py
index 2bb9afe..d3b3c7e 100644
--- a/marsh/config.py
+++ b/marsh/config.py
@@ -251,8 +251,8 @@ def tree(
     for name in os.listdir(path):
         if os.path.isdir(os.path.join(path, name)):
             subtree = tree(os.path.join(path, name))
-            if subtree.count('\n') > 1:
-                subtrees.append(name)
+            if '\n' in subtree:
+                subtrees.append(subtree)
         else:
             if config_type_is_supported(name):
                 configs.append(name)
-- 
2.43.0


From 6cd28cd9a56bf40571521e84234d201f67d7b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 51/61] fix: document empty call-site values as the default of
 their parameter

---
 marsh/schema/template/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/template/structured.py b/marsh/schema/template/structured.py
index 6bb4aeb..a04f6a0 100644
--- a/marsh/schema/template/structured.py
+++ b/marsh/schema/template/structured.py
@@ -154,7 +154,7 @@ class StructuredUnmarshalSchema(UnmarshalSchema[_T]):
                 default = str(default_args.pop(0))
             if name in default_kwargs:
                 default = str(default_kwargs.pop(name))
-            if default:
+            if default is not None:
                 fields[name].doc.default = default
         return fields
 
-- 
2.43.0


From e2a06cc3f1612acfd448ecdc348fd5260efc813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 52/61] fix: name the component in errors when a path ends
 inside of it

---
 marsh/schema/types/namespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index 63cd2ab..bf4db0e 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -113,7 +113,8 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
         field, path = marsh.path.head(path)
         for name, namespace in self.namespaces.find_subclasses(self.value):
             if name == field:
-                return namespace[name].select(path)
+                with marsh.errors.prepend(name):
+                    return namespace[name].select(path)
         raise marsh.errors.PathError(
             marsh.utils.get_closest_error_message(
                 field,
-- 
2.43.0


From a90994c4573a5f424489cb1752245405416b0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 53/61] fix: include the components of a namespace in the
 documentation

---
 marsh/schema/types/namespace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index bf4db0e..d24ff18 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -89,6 +89,14 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
             },
         )
 
+    def doc(
+        self,
+        depth: int = 0,
+    ) -> marsh.schema.UnmarshalSchema.Doc:
+        doc = super().doc(depth)
+        doc.special_fields = self.doc_special_fields()
+        return doc
+
     def doc_special_fields(
         self,
     ) -> Sequence[marsh.schema.UnmarshalSchema.Doc.SpecialField]:
-- 
2.43.0


From e9fdd2e6a9dc3aa47994de9906a16b16da078e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 54/61] fix: select the fields of a type that has components by
 their path

---
 marsh/schema/types/namespace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marsh/schema/types/namespace.py b/marsh/schema/types/namespace.py
index d24ff18..e483d6a 100644
--- a/marsh/schema/types/namespace.py
+++ b/marsh/schema/types/namespace.py
@@ -118,11 +118,13 @@ class NamespaceUnmarshalSchema(marsh.schema.core.unmarshal.WrapperUnmarshalSchem
     ) -> marsh.schema.UnmarshalSchema:
         if not path:
             return self
-        field, path = marsh.path.head(path)
+        field, remaining = marsh.path.head(path)
         for name, namespace in self.namespaces.find_subclasses(self.value):
             if name == field:
                 with marsh.errors.prepend(name):
-                    return namespace[name].select(path)
+                    return namespace[name].select(remaining)
+        if field in (self.schema.doc_fields(1) or ()):
+            return self.schema.select(path)
         raise marsh.errors.PathError(
             marsh.utils.get_closest_error_message(
                 field,
-- 
2.43.0


From 620e2798e5615cefdedeb0f7fdbc1cd92c8b20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 55/61] fix: do not let threads use a default value that is
 still being tried

---
 marsh/schema/types/defaultdict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index f17ad97..6769be8 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -30,12 +30,14 @@ class InitType(Generic[_T]):
     ) -> _T:
         if self.input is not self._sentinel:
             return self.schema.unmarshal(self.input)
-        for self.input in (marsh.MISSING, 0, '', None):
+        for value in (marsh.MISSING, 0, '', None):
             try:
-                return self.schema.unmarshal(self.input)
+                result = self.schema.unmarshal(value)
             except Exception:
-                pass
-        self.input = self._sentinel
+                continue
+            # other threads may only use a value that is known to work
+            self.input = value
+            return result
         raise marsh.errors.MarshError(
             'could not automatically initialize the type '
             f'{self.schema.doc_type()}',
-- 
2.43.0


From 91dcbcbc57069a0e87f3c71d716fa9819ac56910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 56/61] fix: classes derived from set and defaultdict keep
 their class and item types

---
 marsh/schema/types/defaultdict.py |  2 +-
 marsh/schema/types/set.py         | 12 ++++++------
 marsh/utils.py                    |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/marsh/schema/types/defaultdict.py b/marsh/schema/types/defaultdict.py
index 6769be8..11b87c4 100644
--- a/marsh/schema/types/defaultdict.py
+++ b/marsh/schema/types/defaultdict.py
@@ -94,4 +94,4 @@ class DefaultDictUnmarshalSchema(
         self,
         value: Mapping[Any, Any],
     ) -> collections.defaultdict:
-        return collections.defaultdict(self.initializer, value)
+        return marsh.utils.get_type(self.value)(self.initializer, value)
diff --git a/marsh/schema/types/set.py b/marsh/schema/types/set.py
index 1e466b3..7779f8d 100644
--- a/marsh/schema/types/set.py
+++ b/marsh/schema/types/set.py
@@ -18,8 +18,11 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
     ) -> None:
         super().__init__(*args, **kwargs)
         type_ = Any
-        if (_args := get_args(self.value)):
-            type_ = _args[0]
+        # classes derived from sets declare the type of the items as a base
+        for base in (self.value, *getattr(self.value, '__orig_bases__', ())):
+            if (_args := get_args(base)):
+                type_ = _args[0]
+                break
         self.value_schema = marsh.schema.UnmarshalSchema(type_)
 
     @classmethod
@@ -28,10 +31,7 @@ class SetUnmarshalSchema(sequence.SequenceUnmarshalSchema):
         value: Any,
     ) -> bool:
         try:
-            return (
-                get_origin(value) is set
-                or issubclass(value, set)
-            )
+            return issubclass(get_origin(value) or value, set)
         except Exception:
             return False
 
diff --git a/marsh/utils.py b/marsh/utils.py
index 9d3319a..21687db 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -1706,7 +1706,7 @@ def is_defaultdict_type(
     ):
         return True
     try:
-        return issubclass(value, collections.defaultdict)
+        return issubclass(get_origin(value) or value, collections.defaultdict)
     except TypeError:
         return False
 
-- 
2.43.0


From 837851c56b6733b5fdf88a578fe43a3060399fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 57/61] fix: types that can not be compared, as they have
 unhashable annotations, are told apart

---
 marsh/utils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 21687db..f6e75c6 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -552,6 +552,20 @@ def make_typed_hash_key(
     return _CachedHashKey(key)
 
 
+def _is_same_key(
+    left: Any,
+    right: Any,
+) -> bool:
+    """Compare two unhashable keys. Some types (i.e. `X | Y`) hash their
+    arguments when compared, those that fail are only equal to themselves."""
+    if left is right:
+        return True
+    try:
+        return bool(left == right)
+    except TypeError:
+        return False
+
+
 class SafeDict(MutableMapping[_K, _V]):
     """Dictionary that works with unhashable keys.
 
@@ -572,7 +586,7 @@ class SafeDict(MutableMapping[_K, _V]):
             return self._hashable_cache[key]
         except TypeError:
             for k, v in reversed(self._unhashable_cache):
-                if k == key:
+                if _is_same_key(k, key):
                     return v
         raise KeyError(key)
 
@@ -595,7 +609,7 @@ class SafeDict(MutableMapping[_K, _V]):
             if not self._unhashable_cache:
                 self._order = [(True, i) for i in range(len(self._hashable_cache))]
             for i, (k, _) in enumerate(reversed(self._unhashable_cache), start=1):
-                if k == key:
+                if _is_same_key(k, key):
                     self._unhashable_cache[-i] = (key, value)
                     break
             else:
@@ -620,7 +634,7 @@ class SafeDict(MutableMapping[_K, _V]):
                 return
         except TypeError:
             for key_idx, (k, _) in enumerate(self._unhashable_cache):
-                if k == key:
+                if _is_same_key(k, key):
                     self._unhashable_cache.pop(key_idx)
                     self._remove_order(False, key_idx)
                     return
-- 
2.43.0


From 1b30959ea3f02375882e50c68754aa316a8e9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 58/61] fix: telling that the docstring of a dataclass is not
 generated takes time exponential in its length

---
 marsh/schema/types/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/dataclass.py b/marsh/schema/types/dataclass.py
index d360020..48d455b 100644
--- a/marsh/schema/types/dataclass.py
+++ b/marsh/schema/types/dataclass.py
@@ -57,7 +57,7 @@ def is_generated_class_docstring(
     if docstring:
         return bool(
             re.match(
-                r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+: .+( = .+)?)*\)$',
+                r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+: .+)?\)$',
                 docstring,
             ),
         )
-- 
2.43.0


From a681484c05df5ea5fb6d86bd8c9326d606421369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 59/61] fix: the generated docstring of a named tuple with
 several fields is shown as its description

---
 marsh/schema/types/namedtuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/schema/types/namedtuple.py b/marsh/schema/types/namedtuple.py
index 18811fb..da9aa41 100644
--- a/marsh/schema/types/namedtuple.py
+++ b/marsh/schema/types/namedtuple.py
@@ -20,7 +20,7 @@ def is_generated_class_docstring(
     docstring: Optional[str],
 ) -> bool:
     if docstring:
-        return bool(re.match(r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+,)*\)$', docstring))
+        return bool(re.match(r'^[a-zA-Z0-9_]+\(([a-zA-Z0-9_]+(, [a-zA-Z0-9_]+)*,?)?\)$', docstring))
     return False
 
 
-- 
2.43.0


From d2ce4fac4db05bff975096c1d7b2b6b654a3265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 60/61] fix: the texts below the fields of classes defined in
 functions are not found

---
 marsh/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index f6e75c6..405e7b1 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2392,7 +2392,13 @@ def _get_attribute_description(
         except Exception:
             pass
     try:
-        ast_body = ast.parse(inspect.getsource(cls)).body[0].body  # type: ignore
+        source = inspect.getsource(cls)
+        if source[0].isspace():
+            # defined in a function or class
+            source = f'if True:\n{source}'
+            ast_body = ast.parse(source).body[0].body[0].body  # type: ignore
+        else:
+            ast_body = ast.parse(source).body[0].body  # type: ignore
     except Exception:
         return None
     node_iter = iter(ast_body)
-- 
2.43.0


From 6814152350ec6c5023ee19b1a6d11ee95a3cfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 61/61] fix: the descriptions of *args and **kwargs are not
 found

---
 marsh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marsh/utils.py b/marsh/utils.py
index 405e7b1..1777d36 100644
--- a/marsh/utils.py
+++ b/marsh/utils.py
@@ -2385,7 +2385,7 @@ def _get_attribute_description(
         try:
             for param in docstring_parser.parse(doc).params:
                 try:
-                    if param.arg_name == name and param.description:
+                    if param.arg_name.lstrip('*') == name and param.description:
                         return param.description
                 except Exception:
                     pass
-- 
2.43.0

