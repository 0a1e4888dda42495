From 1b5df27efc9d86835d4b156e756d851654ee1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 01/31] fix: decide relation/clan/multiclan membership from the
 elements, so that empty sets do not make it wrong

---
 algebraixlib/algebras/clans.py      | 13 +++++++------
 algebraixlib/algebras/multiclans.py | 13 +++++++------
 algebraixlib/algebras/relations.py  | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..c6eadef 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -400,11 +400,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -424,8 +424,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_clan:
         # If known to not be a clan, it's also not an absolute clan. No further caching.
@@ -433,7 +433,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_clan = obj.is_set and all(
+            _relations.is_absolute_member(elem) for elem in obj)
         if obj.cached_clan == CacheStatus.UNKNOWN:
             if is_absolute_clan:
                 # If it is an absolute clan, it is also a clan.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..e03a8c6 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -369,11 +369,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`multiclan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result of
-        this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -393,8 +393,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute clan`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_multiclan:
         # If known to not be a multiclan, it's also not an absolute multiclan. No further caching.
@@ -404,7 +404,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_multiclan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_mclan = obj.is_multiset and all(
+            _relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_multiclan == CacheStatus.UNKNOWN:
             if is_absolute_mclan:
                 # If it is an absolute multiclan, it is also a multiclan.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..4412721 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -192,11 +192,11 @@ def is_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is a :term:`relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        is_relation = obj.is_set and all(_couplets.is_member(elem) for elem in obj)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -216,8 +216,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
 
      :return: ``True`` if ``obj`` is an :term:`absolute relation`, ``False`` if not.
 
-    .. note:: This function may call :meth:`~.MathObject.get_ground_set` on ``obj``. The result
-        of this operation is cached.
+    .. note:: This function may examine all elements of ``obj``. The result of this operation is
+        cached.
     """
     if obj.cached_is_not_relation:
         # If known to not be a relation, it's also not an absolute relation. No further caching.
@@ -227,7 +227,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_relation == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_relation = obj.is_set and all(
+            _couplets.is_absolute_member(elem) for elem in obj)
         if obj.cached_relation == CacheStatus.UNKNOWN:
             if is_absolute_relation:
                 # If it is an absolute relation, it is also a relation.
-- 
2.43.0


From 1ade935625fb1161b382724752329fcc9e9bf52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 02/31] fix: allow the empty structure as right side of a
 Cartesian product

---
 algebraixlib/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..8779897 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,8 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(left, Structure)
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From a9dc93292970a7b557436864e6b07371427e0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 03/31] fix: clans.from_set: only a clan with a single relation
 is right-regular

---
 algebraixlib/algebras/clans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c6eadef..f35cb20 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -703,7 +703,9 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
+    if not clan.is_empty:
+        clan.cache_right_regular(CacheStatus.from_bool(clan.cardinality == 1))
     return clan
 
 
-- 
2.43.0


From 3f5e6c90cabe1485c52c3afb32f3894c9b9af884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 04/31] fix: cross-(right-)functional unions may drop the
 relations that are not (right-)functional

---
 algebraixlib/algebras/clans.py      | 4 ----
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index f35cb20..afa319f 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +230,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index e03a8c6..5a96070 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 9c37df0caad45ca9eec9cf7ef8e168bfc4a091a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 05/31] fix: clans.lhs_cross_functional_union: do not cache
 properties that the result may not have

---
 algebraixlib/algebras/clans.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index afa319f..7d05907 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -196,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From 0a9f7a985a7ba254f9ebdd889625f51f7836374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 06/31] fix: sets.power_set: the power set of the empty
 relation is regular

---
 algebraixlib/algebras/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..de79f11 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,8 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            result.cache_regular(CacheStatus.from_bool(set_.is_empty))
+            result.cache_right_regular(CacheStatus.from_bool(set_.is_empty))
     return result
 
 
-- 
2.43.0


From 55fa863c028fc79b562d5c527ec23655610d1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 07/31] fix: indexing a multiclan must not fill a multiset that
 is flagged as empty

---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..b5387a7 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -304,12 +304,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        counter = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                counter.update(rel_result)
+        return Multiset(counter, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From a4454a541731abbcf74c2e31dd78d6fa54c3a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 08/31] fix: multiclans.is_right_regular returned and cached
 the left-regular state

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 5a96070..05703f7 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -606,8 +606,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 3610f95411d7533d7b567b2207a3575108f33c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 09/31] fix: multiclans.superstrict: the multiplicities are
 those of the first operand

---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 05703f7..a1a79b8 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -295,7 +295,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From 3671b54ec7f75741773a3f2ed7a0d92fc6305926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 10/31] fix: multiclans.get_rights_for_left raised
 StopIteration for an empty multiclan

---
 algebraixlib/algebras/multiclans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index a1a79b8..1ccb57e 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -497,6 +497,9 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        # The rights of an empty multiset are the empty multiset.
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From 0d13ddffcb448bb9cce47ed3c65df0d83c26f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 11/31] fix: slicing a multiclan honours integer offsets and
 selects the right multiplicities

---
 algebraixlib/algebras/multiclans.py | 52 ++++++++---------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 1ccb57e..ecae1c7 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -698,7 +698,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
@@ -723,7 +723,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
 
 def _to_listgen_slice(counter_list: [()], offset, limit):
     """Slice ``counter_list`` according to ``offset`` and ``limit`` considering the multiplicities
-    in the second elements of the 2-tuples in ``counter_list``. Return a list or a list generator.
+    in the second elements of the 2-tuples in ``counter_list``. Return a list.
     """
     start_offset = offset.value
     end_offset = limit.value + start_offset
@@ -731,43 +731,17 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
 
-    # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
-    # and the resulting multiplicities in these first and last tuples (which may be different from
-    # their original multiplicities).
-    start_index = first_multiple = None
-    end_index = last_multiple = None
-    start_offset_next_tuple = 0
-    for index, counter_entry in enumerate(counter_list):
-        # Calculate the starting offset of the next tuple (by adding the multiplicity of the
-        # current tuple).
-        start_offset_next_tuple += counter_entry[1]
-        if start_index is None and start_offset < start_offset_next_tuple:
-            start_index = index
-            first_multiple = start_offset_next_tuple - start_offset
-            assert first_multiple <= counter_list[start_index][1]
-        if start_index is not None and end_offset <= start_offset_next_tuple:
-            end_index = index
-            last_multiple = counter_list[end_index][1] - (start_offset_next_tuple - end_offset)
-            assert counter_list[end_index][1] > (start_offset_next_tuple - end_offset)
-            break
-    if start_index is None:
-        # No start_index found: start_offset is bigger than all existing offsets. Nothing selected.
-        assert end_index is None
-        return []
-    if end_index is None:
-        # No end_index found: end_offset is bigger than all existing offsets. Put end_index beyond
-        # list bounds.
-        end_index = len(counter_list)
-
-    # If needed, adjust the multiplicities of the first and last tuple in the selected range.
-    if start_index < len(counter_list) and counter_list[start_index][1] != first_multiple:
-        counter_list[start_index] = (counter_list[start_index][0], first_multiple)
-    if end_index < len(counter_list) and counter_list[end_index][1] != last_multiple:
-        counter_list[end_index] = (counter_list[end_index][0], last_multiple)
-
-    # Create and return a generator expression to avoid another copy of the data.
-    limited_list_iter = (counter_tuple for counter_tuple in counter_list[start_index:end_index + 1])
-    return limited_list_iter
+    # Every tuple covers the indices ``tuple_start <= index < tuple_end``. Keep the part of it that is
+    # inside of the selected range.
+    result = []
+    tuple_end = 0
+    for element, multiplicity in counter_list:
+        tuple_start = tuple_end
+        tuple_end += multiplicity
+        selected = min(tuple_end, end_offset) - max(tuple_start, start_offset)
+        if selected > 0:
+            result.append((element, selected))
+    return result
 
 
 def multiclan_to_listgen(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '( A )',
-- 
2.43.0


From c6cf4fa04c1c842bc722bd9c179873f44b894151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 12/31] fix: unary_extend(Undef(), _checked=False) is undefined

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From a66a860b312c0b96376e9235eb9ae5b80ff71724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 13/31] fix: partition: a part of a set that is not a clan may
 be a clan

---
 algebraixlib/partition.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..a4559a6 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,7 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from .cache_status import CacheStatus
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -70,6 +71,12 @@ def _create_partition_dict_from_multiset(mset, class_invariant_func):
     return partition_dict
 
 
+def _inherited_status(cached_status: int) -> int:
+    """Return the status that the parts of a set or multiset inherit from it. (All parts of a clan
+    are clans, but a part of a set that is not a clan may be a clan.)"""
+    return CacheStatus.IS if cached_status == CacheStatus.IS else CacheStatus.UNKNOWN
+
+
 def partition(set_or_mset, class_invariant_func):
     r"""Return ``set_or_mset`` partitioned according to ``class_invariant_func``.
 
@@ -88,13 +95,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_inherited_status(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_inherited_status(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +126,12 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_inherited_status(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_inherited_status(set_or_mset.cached_multiclan)), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From 6ed47cdaa3d275e748c6b090d198f40ee1196247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 14/31] fix: the empty set and multiset are right-regular

---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index b5387a7..77799fd 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From a68460f9778757eccd05e1d93617e4571a7530df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 15/31] fix: is_regular/is_right_regular of sets of clans
 called methods that do not exist

---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From 1e4b1ef24b2a010677442f835fd6825bc7d470c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 16/31] fix: a structure union must not contain members that
 are subsets of other members

---
 algebraixlib/structure.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 8779897..69ef171 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -413,15 +413,11 @@ class Union(Structure):
             for existing_element in writeable_union:
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
-                elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
-                    writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+                    return
+            # Replace all existing elements that are a (real) subset of the new element with it.
+            writeable_union.difference_update(
+                [elem for elem in writeable_union if elem.is_subset(new_element)])
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From 73f10c24aab3e8bd6599ee520669295cf42746b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 17/31] fix: the subset relation of structures must hold for a
 member of a union and the union

---
 algebraixlib/structure.py | 54 +++++++++++++++------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 69ef171..1e6e129 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return _is_subset_of_any(self, other.data)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return _is_subset_of_any(self, other.data)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return _is_subset_of_any(self, other.data)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -331,8 +337,7 @@ class CartesianProduct(Structure):
 
         -   A `CartesianProduct` and both left and right components must be subsets of left and
             right components of ``other``, or
-        -   A :class:`~Union` that contains an instance of `CartesianProduct` where both left and
-            right component are subsets of left and right components of ``other``, or
+        -   A :class:`~Union` that contains an element of which ``self`` is a subset, or
         -   `GenesisSetM` (everything in our system is a subset of :math:`M`).
 
         :param other: Must be an instance of `Structure`.
@@ -340,18 +345,12 @@ class CartesianProduct(Structure):
         """
         assert isinstance(other, Structure)
 
-        def is_subset_of_cart_prod(cart_prod: CartesianProduct):
-            return (self.left <= cart_prod.left) and (self.right <= cart_prod.right)
-
         if isinstance(other, GenesisSetM):
             return True
         elif isinstance(other, CartesianProduct):
-            return is_subset_of_cart_prod(other)
+            return (self.left <= other.left) and (self.right <= other.right)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return _is_subset_of_any(self, other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -438,35 +437,15 @@ class Union(Structure):
     def is_subset(self, other: Structure) -> bool:
         """Return ``True`` if ``self`` is a :term:`subset` of ``other``.
 
-        Is ``True`` if every element of this :term:`union` is a subset of ``other``:
-
-        -   If ``other`` is a union, we compare against each element of it.
-        -   If ``other`` is not a union, we compare directly against it.
-
-        Is also ``True`` if ``other`` is `GenesisSetM` (everything in our system is an element of
-        :math:`M`).
+        Is ``True`` if every element of this :term:`union` is a subset of ``other``.
 
         :param other: Must be an instance of `Structure`.
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
-
-        def is_subset_of_union(elem, union):
-            for union_elem in union:
-                if elem.is_subset(union_elem):
-                    return True  # If elem is a subset of any element of union, return True.
-            return False  # Only return False if elem is not a subset of any element of union.
-
-        if isinstance(other, GenesisSetM):
-            return True
-        elif isinstance(other, Union):
-            for element in self.data:
-                if not is_subset_of_union(element, other.data):
-                    return False  # If any element is not a subset of other, return False.
-        else:
-            for element in self.data:
-                if not element.is_subset(other):
-                    return False  # If any element is not a subset of other, return False.
+        for element in self.data:
+            if not element.is_subset(other):
+                return False  # If any element is not a subset of other, return False.
         return True  # Only return True if all elements are a subset of other.
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -544,6 +523,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return _is_subset_of_any(self, other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -595,3 +576,8 @@ class PowerSet(Structure):
             return 'P{elem}'.format(elem=elem_str)
         else:
             return 'P({elem})'.format(elem=elem_str)
+
+
+def _is_subset_of_any(structure: Structure, others) -> bool:
+    """Return ``True`` if ``structure`` is a subset of at least one of the structures ``others``."""
+    return any(structure.is_subset(other) for other in others)
-- 
2.43.0


From c0d3dbe1e977c0732c8bf9d2bac9381f1d539509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 18/31] fix: a union of a single structure and this structure
 are the same, in both directions

---
 algebraixlib/structure.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 1e6e129..13a2494 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,7 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +182,7 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +239,7 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +289,7 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -369,6 +373,7 @@ class CartesianProduct(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
         return False
@@ -480,6 +485,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # A union of a single structure is the same as this structure.
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -552,6 +560,7 @@ class PowerSet(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        other = _unwrap_single(other)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
         return False
@@ -581,3 +590,10 @@ class PowerSet(Structure):
 def _is_subset_of_any(structure: Structure, others) -> bool:
     """Return ``True`` if ``structure`` is a subset of at least one of the structures ``others``."""
     return any(structure.is_subset(other) for other in others)
+
+
+def _unwrap_single(structure: Structure) -> Structure:
+    """If ``structure`` is a union of a single structure, return this structure, else ``structure``."""
+    if isinstance(structure, Union) and len(structure.data) == 1:
+        return _misc.get_single_iter_elem(structure.data)
+    return structure
-- 
2.43.0


From 6f183558d730d2b31e4895481ab6f9fe8bd5898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 19/31] fix: import_csv: a clan is regular if all rows have
 values in the same columns

---
 algebraixlib/import_export/csv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..81779c8 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,8 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    import_csv.regular = True  # Set to false if any row has different columns than the first row.
+    import_csv.columns = None  # The columns with values in the first row.
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -165,7 +166,9 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
+            if import_csv.columns is None:
+                import_csv.columns = set(filtered_row)
+            if import_csv.regular and import_csv.columns != set(filtered_row):
                 import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
-- 
2.43.0


From a9121e739c78a224cd4242889913863b86646f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 20/31] fix: export_csv raised StopIteration for an empty
 (multi)clan

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 81779c8..482f88a 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -61,7 +61,7 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
 
     if ordered_lefts is None:
         # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
+        rel = next(iter(absolute_clan_or_multiclan), _mo.Set())
         # left_set is sorted to guarantee consistent iterations
         ordered_lefts = sorted([left.value for left in rel.get_left_set()])
 
-- 
2.43.0


From 9fa3e8f24cafb5ec0db3223f6027f2fc47218700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 21/31] fix: import_csv must not translate line endings inside
 of quoted values

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 482f88a..3d6b7c7 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -192,7 +192,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(import_csv.regular))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From a68b5e5e18f18a668b9b6f612ece00c1107a950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 22/31] fix: mojson: the elements of lists and tuples must be
 encoded, too

---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From 6528dfd2a0e98b6ee84c08270d28b2f9b6e4382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 23/31] fix: import_graph discarded the skolemized graph

---
 algebraixlib/import_export/rdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..fd4ed06 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,8 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
-    return _convert_graph_to_mathobjects(graph)
+    return _convert_graph_to_mathobjects(graph.skolemize())
 
 
 class _ExportTable(_abc.ABC):
-- 
2.43.0


From 4432197d8247a3de8e595758e55dae9dc19f123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 24/31] fix: export_table raised StopIteration for an empty
 clan

---
 algebraixlib/import_export/rdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index fd4ed06..bb0755d 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -193,10 +193,9 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        for index, relation in enumerate(self._clan):
+            if index > 0:
+                self._row_between_relations()
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 1255b888e784b6dcc8b93068ac664c4fae47e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 25/31] fix: export_table: escape the strings of the JSON
 format

---
 algebraixlib/import_export/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index bb0755d..0dc9ea7 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -317,7 +318,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._file.write(_json.dumps(str(atom.value), ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From e1acdc53844771721aaf982d0afa7078f19d0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 26/31] fix: export_table: no separator in front of the first
 value of a JSON row

---
 algebraixlib/import_export/rdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 0dc9ea7..491e1fe 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -290,6 +290,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
         def _body_end(self):
             self._file.write(']}')
         def _row_start(self):
+            self._row_is_empty = True
             self._file.write('{')
         def _row_between_relations(self):
             self._file.write(',')
@@ -299,8 +300,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             pass
         def _write_item(self, left, right, prefix_separator):
             if right is not _ud.Undef():
-                if prefix_separator:
+                if not self._row_is_empty:
                     self._file.write(', ')
+                self._row_is_empty = False
                 self._write_atom(left)
                 self._file.write(': {"type":')
                 if isinstance(right.value, _rdflib.URIRef):
-- 
2.43.0


From 1b6f3b8bafe77524c4bab77a04411bdee53ca60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 27/31] fix: triple_match raised IndexError for an empty string
 as value

---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..99f07c0 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value.startswith(('?', '$')):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From 02c82e34484c02a0521910492e423cecbe83a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 28/31] fix: relations.is_reflexive must accept relations that
 also contain non-reflexive couplets

---
 algebraixlib/algebras/relations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 4412721..8339c07 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -437,7 +437,9 @@ def is_reflexive(rel, _checked=True) -> bool:
         if rel is _undef.Undef():
             return _undef.make_or_raise_undef(2)
     if rel.cached_reflexive == CacheStatus.UNKNOWN:
-        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
+        reflexive = all(
+            _mo.Couplet(elem, elem, direct_load=True) in rel.data
+            for couplet in rel for elem in (couplet.left, couplet.right))
         rel.cache_reflexive(CacheStatus.from_bool(reflexive))
     return rel.cached_reflexive == CacheStatus.IS
 
-- 
2.43.0


From f39e49d9817db13720d960c47c324a97ae5083c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 29/31] fix: is_absolute_member of sets and multisets must not
 rely on cached relation/clan/multiclan states being known

---
 algebraixlib/algebras/multisets.py | 2 +-
 algebraixlib/algebras/sets.py      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebraixlib/algebras/multisets.py b/algebraixlib/algebras/multisets.py
index 18c534c..730a723 100755
--- a/algebraixlib/algebras/multisets.py
+++ b/algebraixlib/algebras/multisets.py
@@ -404,7 +404,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_multiset))
     # In order to determine whether this is an absolute multiset, we need to also examine whether
     # this is a multiclan (also a multisets). Absolute multiclans are not absolute multisets.
-    return obj.cached_is_absolute and not obj.cached_is_multiclan
+    return obj.cached_is_absolute and not _multiclans.is_member(obj)
 
 
 # --------------------------------------------------------------------------------------------------
diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index de79f11..6445df9 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -399,10 +399,10 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # If known to not be a set, it's also not an absolute set. No further checking or caching.
         return False
     # From this point on, `obj` is known to be a set.
-    if obj.cached_absolute == CacheStatus.UNKNOWN:
-        import algebraixlib.algebras.clans as _clans
-        import algebraixlib.algebras.relations as _relations
+    import algebraixlib.algebras.clans as _clans
+    import algebraixlib.algebras.relations as _relations
 
+    if obj.cached_absolute == CacheStatus.UNKNOWN:
         # In order to find out whether this is an absolute set, we need to know whether `obj` is a
         # relation or a clan (both sets). If it is one of these, it is not an absolute set -- but
         # we also don't know whether it is an absolute relation or clan. So we return `False` but
@@ -414,7 +414,7 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     # In order to determine whether this is an absolute set, we need to also examine whether this
     # is a relation or a clan (both are sets). Absolute relations and absolute clans are not
     # absolute sets.
-    return obj.cached_is_absolute and not obj.cached_is_relation and not obj.cached_is_clan
+    return obj.cached_is_absolute and not _relations.is_member(obj) and not _clans.is_member(obj)
 
 
 # --------------------------------------------------------------------------------------------------
-- 
2.43.0


From ba5d012f7f4670d9c188653bece969dd4bea9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 30/31] fix: slicing a multiclan with an undefined limit is
 undefined

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ecae1c7..b37db61 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -706,10 +706,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
-        elif isinstance(limit, int) or limit == float('inf'):
-            limit = _mo.Atom(limit)
         elif limit is _undef.Undef():
             return _undef.make_or_raise_undef(2)
+        elif isinstance(limit, int) or limit == float('inf'):
+            limit = _mo.Atom(limit)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From fd5d2df033145f16dfd122ce59f82a978089fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 31/31] fix: import_csv: an index column that replaces a column
 of the table counts for regularity

---
 algebraixlib/import_export/csv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 3d6b7c7..7f8f286 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -166,16 +166,16 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.columns is None:
-                import_csv.columns = set(filtered_row)
-            if import_csv.regular and import_csv.columns != set(filtered_row):
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            if import_csv.columns is None:
+                import_csv.columns = set(filtered_row)
+            if import_csv.regular and import_csv.columns != set(filtered_row):
+                import_csv.regular = False
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
-- 
2.43.0

