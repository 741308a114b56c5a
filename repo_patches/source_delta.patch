From 9e53f8a0f88ebfda1d1c19caa02a8e2da80787d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 01/85] fix: dictionaries with extra keys no longer compare
 data-equal to smaller ones

---
 dessia_common/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 3e21c2f..a407da4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1189,6 +1189,9 @@ def data_eq(value1, value2):
 
 def dict_data_eq(dict1, dict2):
     """ Returns True if two dictionaries are equal on data equality, False otherwise. """
+    if len(dict1) != len(dict2):
+        return False
+
     for key, value in dict1.items():
         if key not in dict2:
             return False
-- 
2.43.0


From bd1f01a75d6e96aac6ca3e4e3aabc9f642d087b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 02/85] fix: data equality of class-valued attributes compares
 the classes themselves

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index a407da4..e58c6d4 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1166,7 +1166,7 @@ def data_eq(value1, value2):
         return value1 == value2
 
     if isinstance(value1, type):
-        return full_classname(value1) == full_classname(value2)
+        return full_classname(value1, compute_for='class') == full_classname(value2, compute_for='class')
 
     # Else: its an object
     if full_classname(value1) != full_classname(value2):
-- 
2.43.0


From f1dac700ea4cc994dfc90c3b7aed5446c8cafe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 03/85] fix: comparing an object to an unhashable value returns
 False instead of raising

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index e58c6d4..42b58c2 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -120,11 +120,11 @@ class DessiaObject(SerializableObject):
         Behavior can be controlled by class attribute _eq_is_data_eq to tell if we must use python equality (based on
         memory addresses) (_eq_is_data_eq = False) or a data equality (True).
         """
-        if hash(self) != hash(other_object):
-            return False
         if self._eq_is_data_eq:
             if self.__class__.__name__ != other_object.__class__.__name__:
                 return False
+            if hash(self) != hash(other_object):
+                return False
             return self._data_eq(other_object)
         return object.__eq__(self, other_object)
 
-- 
2.43.0


From d8bd513131e46fcd5c519751717250347cfb00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:33 +0000
Subject: [PATCH 04/85] fix: owned sub-objects held by a standalone object stay
 shared through pointers

---
 dessia_common/serialization.py | 19 ++++++++++++++++---
 dessia_common/utils/helpers.py |  6 ++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 7fa8e8f..832ae4d 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -239,10 +239,23 @@ def add_references(dict_, memo, id_memo):
     dict_['_references'] = id_memo
 
     # Rewriting dc__refs
-    for _, serialized, id_, object_path in memo.values():
+    for value, (_, serialized, id_, object_path) in memo.items():
         if not object_path.startswith('#/_references') and id_ in id_memo:
-            if REF_MARKER not in serialized:
-                set_in_object_from_path(dict_, object_path, {REF_MARKER: f'#/_references/{id_}'})
+            if REF_MARKER in serialized:
+                continue
+            if not isinstance(value, SerializableObject) and _is_held_by_reference(dict_, object_path):
+                # Non Dessia objects are left as is inside of references
+                continue
+            set_in_object_from_path(dict_, object_path, {REF_MARKER: f'#/_references/{id_}'})
+
+
+def _is_held_by_reference(dict_, path):
+    """ Whether the direct container of the element at given path is a reference. """
+    container_path = path.rsplit('/', 1)[0]
+    if container_path in ('', '#'):
+        return False
+    container = get_in_object_from_path(dict_, container_path)
+    return isinstance(container, dict) and REF_MARKER in container
 
 
 def serialize_sequence_with_pointers(seq, memo, path, id_method, id_memo):
diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 513c6d3..b5ba629 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -185,6 +185,12 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     else:
         last_object = object_
 
+    if evaluate_pointers and isinstance(last_object, dict):
+        # The container is itself a reference : setting value in the element it points at
+        for marker in [REF_MARKER, OLD_REF_MARKER]:
+            if marker in last_object:
+                last_object = get_in_object_from_path(object_, last_object[marker])
+
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
-- 
2.43.0


From 1ca650bcbbdb4b9e11efbccb923ad09577f899b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 05/85] fix: dict_diff reports keys missing on either side and
 keeps the order of values

---
 dessia_common/utils/diff.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index 043c9a0..d6496ac 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -139,21 +139,17 @@ def dict_diff(dict1, dict2, path='#'):
     """ Returns diff between two dictionaries. """
     diff_object = Diff([], [], [])
 
-    dict_ = dict1
-    other_dict = dict2
-    first_object = False
-    if len(dict2) > len(dict1):
-        dict_ = dict2
-        other_dict = dict1
-        first_object = True
-    for key, value in dict_.items():
+    for key, value in dict1.items():
         path_key = f'{path}/{key}'
-        if key not in other_dict:
-            diff_object.missing_attributes.append(MissingAttribute(path=path_key,
-                                                                   missing_in_first_object=first_object))
+        if key not in dict2:
+            diff_object.missing_attributes.append(MissingAttribute(path=path_key, missing_in_first_object=False))
         else:
-            diff_key = diff(value, other_dict[key], path=path_key)
+            diff_key = diff(value, dict2[key], path=path_key)
             diff_object += diff_key
+
+    for key in dict2:
+        if key not in dict1:
+            diff_object.missing_attributes.append(MissingAttribute(path=f'{path}/{key}', missing_in_first_object=True))
     return diff_object
 
 
-- 
2.43.0


From 8aaeb144cd6ad2573339a588e1a49aec7e15f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 06/85] fix: diff of objects looks at the same attributes and
 types as data equality

---
 dessia_common/utils/diff.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dessia_common/utils/diff.py b/dessia_common/utils/diff.py
index d6496ac..e71588e 100644
--- a/dessia_common/utils/diff.py
+++ b/dessia_common/utils/diff.py
@@ -7,7 +7,7 @@ from typing import List
 
 from dessia_common import FLOAT_TOLERANCE
 from dessia_common.utils.types import isinstance_base_types
-from dessia_common.utils.helpers import is_sequence
+from dessia_common.utils.helpers import full_classname, is_sequence
 
 
 class DifferentValues:
@@ -101,7 +101,7 @@ def diff(value1, value2, path='#'):
     if is_sequence(value1) and is_sequence(value2):
         return sequence_diff(value1, value2, path=path)
 
-    if not isinstance(value1, type(value2)):
+    if not isinstance(value1, type(value2)) and not isinstance(value2, type(value1)):
         invalid_types.append(DifferentType(path, value1, value2))
         return Diff(diff_values, missing_keys_in_other_object, invalid_types)
 
@@ -115,19 +115,23 @@ def diff(value1, value2, path='#'):
     if isinstance(value1, dict):
         return dict_diff(value1, value2, path=path)
 
+    if isinstance(value1, type):
+        if value1 != value2:
+            diff_values.append(DifferentValues(path, value1, value2))
+        return Diff(diff_values, missing_keys_in_other_object, invalid_types)
+
     # Should be object
     if hasattr(value1, '_data_eq'):
         # DessiaObject
         if value1._data_eq(value2):
             return Diff([], [], [])
 
-        # Use same code snippet as in data_eq
-        eq_dict = value1._serializable_dict()
-        if 'name' in eq_dict:
-            del eq_dict['name']
+        if full_classname(value1) != full_classname(value2):
+            invalid_types.append(DifferentType(path, value1, value2))
+            return Diff(diff_values, missing_keys_in_other_object, invalid_types)
 
-        other_eq_dict = value2._serializable_dict()
-        return dict_diff(eq_dict, other_eq_dict, path=path)
+        # Use same attributes as in data_eq
+        return dict_diff(value1._data_eq_dict(), value2._data_eq_dict(), path=path)
 
     if value1 == value2:
         return Diff([], [], [])
-- 
2.43.0


From b5b2ddd2d7f7f52e6e440dcd092da5bf09c365f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:47 +0000
Subject: [PATCH 07/85] fix: deep copies keep tuples, including as dictionary
 keys

---
 dessia_common/utils/copy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/utils/copy.py b/dessia_common/utils/copy.py
index e07c432..861a599 100644
--- a/dessia_common/utils/copy.py
+++ b/dessia_common/utils/copy.py
@@ -95,6 +95,8 @@ def deepcopy_sequence(seq_value, memo):
     for value in seq_value:
         copied_value = deepcopy_value(value, memo=memo)
         copied_list.append(copied_value)
+    if isinstance(seq_value, tuple):
+        return tuple(copied_list)
     return copied_list
 
 
-- 
2.43.0


From a0a758fb6f0e3877478ba2f53413e5fd60d090c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 08/85] fix: paths through tuple keys holding strings are read
 back

---
 dessia_common/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index b5ba629..ed701fe 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -136,7 +136,7 @@ def extract_segment_from_object(object_, segment: str):
                 if subsegment.isdigit():
                     subkey = int(subsegment)
                 else:
-                    subkey = subsegment
+                    subkey = subsegment.strip("'")
                 key.append(subkey)
             return object_[tuple(key)]
         raise ExtractionError(f"Cannot extract segment {segment} from object {str(object_)[:500]}")
-- 
2.43.0


From 27a6ffd6e1eb6134c5a44c78e6c310fea51baa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 09/85] fix: references to references are followed when reading
 a path

---
 dessia_common/utils/helpers.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index ed701fe..35538e7 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -145,26 +145,26 @@ def extract_segment_from_object(object_, segment: str):
     return getattr(object_, segment)
 
 
+def evaluate_pointer(object_, element):
+    """ Follow reference, if element is one, until a real element is found. """
+    for marker in [REF_MARKER, OLD_REF_MARKER]:  # Retro-compatibility to be remove sometime
+        if isinstance(element, dict) and marker in element:
+            return evaluate_pointer(object_, get_in_object_from_path(object_, element[marker]))
+    return element
+
+
 def get_in_object_from_path(object_, path, evaluate_pointers=True):
     """ Get deep attributes from an object. Argument 'path' represents path to deep attribute. """
     segments = path.lstrip('#/').split('/')
     element = object_
     for segment in segments:
-        if isinstance(element, dict):
+        if isinstance(element, dict) and evaluate_pointers:
             # Going down in the object and it is a reference : evaluating sub-reference
-            if evaluate_pointers:
-                if REF_MARKER in element:
-                    try:
-                        element = get_in_object_from_path(object_, element[REF_MARKER])
-                    except RecursionError as err:
-                        err_msg = f'Cannot get segment {segment} from path {path} in element {str(element)[:500]}'
-                        raise RecursionError(err_msg) from err
-                elif OLD_REF_MARKER in element:  # Retro-compatibility to be remove sometime
-                    try:
-                        element = get_in_object_from_path(object_, element[OLD_REF_MARKER])
-                    except RecursionError as err:
-                        err_msg = f'Cannot get segment {segment} from path {path} in element {str(element)[:500]}'
-                        raise RecursionError(err_msg) from err
+            try:
+                element = evaluate_pointer(object_, element)
+            except RecursionError as err:
+                err_msg = f'Cannot get segment {segment} from path {path} in element {str(element)[:500]}'
+                raise RecursionError(err_msg) from err
 
         try:
             element = extract_segment_from_object(element, segment)
@@ -187,9 +187,7 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
 
     if evaluate_pointers and isinstance(last_object, dict):
         # The container is itself a reference : setting value in the element it points at
-        for marker in [REF_MARKER, OLD_REF_MARKER]:
-            if marker in last_object:
-                last_object = get_in_object_from_path(object_, last_object[marker])
+        last_object = evaluate_pointer(object_, last_object)
 
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
-- 
2.43.0


From 43639fe8d597a0819489ce71d8f8418c8dc68354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:51 +0000
Subject: [PATCH 10/85] fix: setting a path through integer or tuple keys
 replaces the value of that key

---
 dessia_common/utils/helpers.py | 52 +++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 35538e7..280b964 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -107,6 +107,29 @@ def is_tuple(obj) -> bool:
     return obj.__class__ == tuple
 
 
+def dict_key_from_segment(dict_, segment: str):
+    """ Find the key (string, integer or tuple) of dict_ that given segment of a path stands for. """
+    if segment in dict_:
+        return segment
+
+    if segment.isdigit():
+        if int(segment) in dict_:
+            return int(segment)
+        raise ExtractionError(f'Cannot extract segment {segment} from object {str(dict_)[:200]}')
+
+    # should be a tuple
+    if segment.startswith('(') and segment.endswith(')') and ',' in segment:
+        key = []
+        for subsegment in segment.strip('()').replace(' ', '').split(','):
+            if subsegment.isdigit():
+                subkey = int(subsegment)
+            else:
+                subkey = subsegment.strip("'")
+            key.append(subkey)
+        return tuple(key)
+    raise ExtractionError(f"Cannot extract segment {segment} from object {str(dict_)[:500]}")
+
+
 def extract_segment_from_object(object_, segment: str):
     """ Try all ways to get an attribute (segment) from an object that can of numerous types. """
     if is_sequence(object_):
@@ -118,28 +141,7 @@ def extract_segment_from_object(object_, segment: str):
             raise ExtractionError(message_error) from err
 
     if isinstance(object_, dict):
-        if segment in object_:
-            return object_[segment]
-
-        if segment.isdigit():
-            intifyed_segment = int(segment)
-            if intifyed_segment in object_:
-                return object_[intifyed_segment]
-            if segment in object_:
-                return object_[segment]
-            raise ExtractionError(f'Cannot extract segment {segment} from object {str(object_)[:200]}')
-
-        # should be a tuple
-        if segment.startswith('(') and segment.endswith(')') and ',' in segment:
-            key = []
-            for subsegment in segment.strip('()').replace(' ', '').split(','):
-                if subsegment.isdigit():
-                    subkey = int(subsegment)
-                else:
-                    subkey = subsegment.strip("'")
-                key.append(subkey)
-            return object_[tuple(key)]
-        raise ExtractionError(f"Cannot extract segment {segment} from object {str(object_)[:500]}")
+        return object_[dict_key_from_segment(object_, segment)]
 
     # Finally, it is a regular object
     return getattr(object_, segment)
@@ -192,6 +194,10 @@ def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     if is_sequence(last_object):
         last_object[int(last_segment)] = value
     elif isinstance(last_object, dict):
-        last_object[last_segment] = value
+        try:
+            last_object[dict_key_from_segment(last_object, last_segment)] = value
+        except ExtractionError:
+            # New key
+            last_object[last_segment] = value
     else:
         setattr(last_object, last_segment, value)
-- 
2.43.0


From 1e97caa32ce9f094bb739106bec374ab861323f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:31 +0000
Subject: [PATCH 11/85] fix: combining filters with 'xor' is no longer the same
 as 'or'

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 42b58c2..8141f39 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -1045,7 +1045,7 @@ class FiltersList(DessiaObject):
         if logical_operator == 'or':
             return [any(booleans_tuple) for booleans_tuple in zip(*booleans_lists)]
         if logical_operator == 'xor':
-            return [bool(sum(booleans_tuple)) for booleans_tuple in zip(*booleans_lists)]
+            return [sum(booleans_tuple) % 2 == 1 for booleans_tuple in zip(*booleans_lists)]
         raise NotImplementedError(f"'{logical_operator}' str for 'logical_operator' attribute is not a use case")
 
     def get_booleans_index(self, dobjects_list: List[DessiaObject]):
-- 
2.43.0


From df4622d6f57c3b89278e39956413835d52c54062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:25 +0000
Subject: [PATCH 12/85] fix: sorting a clustered dataset sorts its labels too

---
 dessia_common/datatools/cluster.py |  4 ++++
 dessia_common/datatools/dataset.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index 1adc1e3..c9dbe04 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -89,6 +89,10 @@ class ClusteredDataset(Dataset):
         # new_hlist.name += "_list")
         return new_hlist
 
+    def _reorder(self, indexes: List[int]):
+        Dataset._reorder(self, indexes)
+        self.labels = [self.labels[idx] for idx in indexes]
+
     def _printed_attributes(self):
         return ["label"] + Dataset._printed_attributes(self)
 
diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index f8fa454..a6f82c6 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -432,10 +432,12 @@ class Dataset(DessiaObject):
                 sort_indexes = npy.argsort(self.column_values(key))
             elif isinstance(key, str):
                 sort_indexes = npy.argsort(self.attribute_values(key))
-            self.dessia_objects = [self.dessia_objects[idx] for idx in (sort_indexes if ascend else sort_indexes[::-1])]
-            if self._matrix is not None:
-                self._matrix = [self._matrix[idx] for idx in
-                                (sort_indexes if ascend else sort_indexes[::-1])]
+            self._reorder(sort_indexes if ascend else sort_indexes[::-1])
+
+    def _reorder(self, indexes: List[int]):
+        self.dessia_objects = [self.dessia_objects[idx] for idx in indexes]
+        if self._matrix is not None:
+            self._matrix = [self._matrix[idx] for idx in indexes]
 
     def mean(self):
         """
-- 
2.43.0


From f802be63d9850e734fc135a65beaa578857e48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:25 +0000
Subject: [PATCH 13/85] fix: adding datasets only keeps the attributes and
 matrix when both have the same ones

---
 dessia_common/datatools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index a6f82c6..fe8c419 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -133,7 +133,7 @@ class Dataset(DessiaObject):
         sum_hlist = self.__class__(dessia_objects=self.dessia_objects + other.dessia_objects,
                                    name=self.name[:5] + '_+_' + other.name[:5])
 
-        if all(item in self.common_attributes for item in other.common_attributes):
+        if len(other) == 0 or self.common_attributes == other.common_attributes:
             sum_hlist._common_attributes = self.common_attributes
             if self._matrix is not None and other._matrix is not None:
                 sum_hlist._matrix = self._matrix + other._matrix
-- 
2.43.0


From 7a923183b9a8c20673ed94dda648b079cbac94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:25 +0000
Subject: [PATCH 14/85] fix: sublists of a clustered dataset are named and
 labelled after their own cluster

---
 dessia_common/datatools/cluster.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index c9dbe04..f6de37d 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -136,14 +136,12 @@ class ClusteredDataset(Dataset):
         |    25.0 |             0.11 |           87.0 |     2672.0 |             17.5 |
         |    21.0 |            0.199 |           90.0 |     2648.0 |             15.0 |
         """
-        sublists = []
-        label_tags = sorted(list(map(str, set(self.labels).difference({-1}))))
-        unic_labels = list(set(self.labels))
-        for _ in range(self.n_clusters):
-            sublists.append([])
+        unic_labels = sorted(set(self.labels).difference({-1}))
+        label_tags = list(map(str, unic_labels))
         if -1 in self.labels:
-            sublists.append([])
+            unic_labels.append(-1)
             label_tags.append("outliers")
+        sublists = [[] for _ in unic_labels]
 
         for idx, label in enumerate(self.labels):
             sublists[unic_labels.index(label)].append(self.dessia_objects[idx])
@@ -151,9 +149,7 @@ class ClusteredDataset(Dataset):
         new_dessia_objects = [Dataset(dessia_objects=sublist, name=self.name + f"_{label_tag}")
                               for label_tag, sublist in zip(label_tags, sublists)]
 
-        return ClusteredDataset(new_dessia_objects,
-                                list(set(self.labels).difference({-1})) + ([-1] if -1 in self.labels else []),
-                                name=self.name + "_split")
+        return ClusteredDataset(new_dessia_objects, unic_labels, name=self.name + "_split")
 
     def _check_transform_sublists(self):
         if not isinstance(self.dessia_objects[0], Dataset):
-- 
2.43.0


From 472cae417c410880b8f1699c590f9147c05d9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:13 +0000
Subject: [PATCH 15/85] fix: iterating over an empty dataset ends

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index fe8c419..268864d 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -102,10 +102,10 @@ class Dataset(DessiaObject):
 
         In addition to work as numpy.arrays of dimension `(n,)`, allows to pick a sub-Dataset from a list of indexes.
         """
-        if len(self) == 0:
-            return []
         if isinstance(key, int):
             return self._pick_from_int(key)
+        if len(self) == 0:
+            return []
         if isinstance(key, slice):
             return self._pick_from_slice(key)
         if isinstance(key, list):
-- 
2.43.0


From 882bdf90969c7d519fc18c7505685a47fe7f705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 16/85] fix: progress reported while running a workflow never
 exceeds one

The callback of a block adds the share of the block to the progress of the state. Calling it with the progress of the
state itself, once the block was evaluated, reported up to 1 + 1/n. block_evaluation reports the new progress anyway.
---
 dessia_common/workflow/core.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index e09bb0a..163cc05 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2061,10 +2061,6 @@ class WorkflowState(DessiaObject):
         output_values = block.evaluate(local_values, **kwargs)
         self.execution_info.after_block_memory_usage.append((block, int(psutil.Process().memory_info().vms)))
         self._activate_block(block=block, output_values=output_values)
-
-        # Updating progress
-        if progress_callback is not None:
-            progress_callback(self.progress)
         return output_values
 
     def activate_inputs(self, check_all_inputs=False):
-- 
2.43.0


From 7526ebc2d170157dfb6e28db47be5888b444b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:02 +0000
Subject: [PATCH 17/85] fix: run_again works without a progress callback

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 163cc05..038fc49 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2193,7 +2193,7 @@ class WorkflowRun(WorkflowState):
         """ Get display settings from given selector. """
         return display_settings_from_selector(display_settings=self.display_settings(), selector=selector)
 
-    def run_again(self, input_values, progress_callback=None, name=None):
+    def run_again(self, input_values, progress_callback=lambda x: None, name=None):
         """ Execute workflow again with given inputs. """
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
-- 
2.43.0


From c92fa36c1b38e6203e8e8c180632bcb9b226aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:02 +0000
Subject: [PATCH 18/85] fix: a block reached twice at the same depth is
 evaluated once in a branch

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 038fc49..67ea3ad 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -913,7 +913,7 @@ class Workflow(Block):
                     candidates.extend(self.upstream_blocks(upstream_block))
                 elif include_last:
                     branch_blocks.insert(0, upstream_block)
-            upstream_blocks = [b for b in candidates if b not in branch_blocks]
+            upstream_blocks = list(dict.fromkeys(b for b in candidates if b not in branch_blocks))
             i += 1
         return branch_blocks
 
-- 
2.43.0


From 3f04722798509b00d2230080a23e15ca0c164c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:51 +0000
Subject: [PATCH 19/85] fix: the default arguments of a workflow run are given
 by input index

_run_dict looked up the index of an input in the list of variables, and raised as soon as an input had a default value.
---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 67ea3ad..7365815 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -834,7 +834,7 @@ class Workflow(Block):
         return {i: input_.default_value for i, input_ in enumerate(self.inputs) if input_.has_default_value}
 
     def _run_dict(self) -> JsonSerializable:
-        return {str(self.variables.index(i)): serialize(v) for i, v in self.default_values.items()}
+        return {str(i): serialize(v) for i, v in self.default_values.items()}
 
     def method_dict(self, method_name: str = None) -> Dict:
         """ Wrapper method to get dictionaries of run method. """
-- 
2.43.0


From 9e50a606e476443658a9df4f120a3e720f843633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 20/85] fix: removing an input that is in no step does not
 duplicate it in the spare inputs

---
 dessia_common/workflow/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 7365815..7dfc27f 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1432,9 +1432,11 @@ class Workflow(Block):
     def remove_input_from_step(self, input_index: int):
         """ Callable from frontend. """
         input_ = self.inputs[input_index]
-        self.spare_inputs.append(input_)
         current_step = self.find_input_step(input_)
+        if current_step is None:
+            raise ValueError(f"Input '{input_.name}', labelled '{input_.label}' is not in any step.")
         current_step.inputs.remove(input_)
+        self.spare_inputs.append(input_)
         return self.method_schemas["run"]
 
     def reorder_step_inputs(self, step_index: int, order: list[int]):
-- 
2.43.0


From 84fa4e53b572f3e39ae1429c1b3afaf6ba903571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 21/85] fix: reordering the inputs of a step refuses an order
 that repeats one of them

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 7dfc27f..82d695b 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1443,7 +1443,7 @@ class Workflow(Block):
         """ Callable from frontend. """
         step = self.steps[step_index]
         step_input_indices = [self.input_index(v) for v in step.inputs]
-        if set(step_input_indices) != set(order):
+        if sorted(step_input_indices) != sorted(order):
             raise ValueError(f"Reordering inputs of step '{step.label}' failed. "
                              f"Given order '{order}' does not match step inputs of indices '{step_input_indices}'")
         step.inputs = [self.inputs[i] for i in order]
-- 
2.43.0


From abee1dc0cb8e05518e1a97a4f441258c08491574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 22/85] fix: reordering steps refuses indices that stand for
 the same step

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 82d695b..4f52053 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1469,8 +1469,8 @@ class Workflow(Block):
         if len(order) != len(self.steps):
             raise ValueError(f"Given order '{order}' of length '{len(order)}' is missing items."
                              f"It should be of length '{len(self.steps)}' ")
-        if len(set(order)) != len(self.steps):
-            raise ValueError(f"Duplicated indices found in given order '{order}'")
+        if sorted(order) != list(range(len(self.steps))):
+            raise ValueError(f"Duplicated or unknown indices found in given order '{order}'")
         self.steps = [self.steps[i] for i in order]
         return self.method_schemas["run"]
 
-- 
2.43.0


From 3031d0a678f0e795696b48069a441aa30b9e2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 23/85] fix: workflows with steps that have no display can be
 hashed and compared

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 4f52053..868bfa8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -301,7 +301,7 @@ class Step:
 
     def __hash__(self):
         return (hash(self.label) + 43 * len(self.inputs) + 19 * len(self.group_inputs) + hash(self.display_setting)
-                + len(self.documentation) + self.display_variable_index)
+                + len(self.documentation) + hash(self.display_variable_index))
 
     def __eq__(self, other: 'Step'):
         same_label = self.label == other.label
-- 
2.43.0


From 703092494eed1bb674d0fb6c379020b305bad147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 24/85] fix: locked non-block variables stay locked through
 serialization

---
 dessia_common/workflow/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 868bfa8..a0e7417 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2304,6 +2304,9 @@ def initialize_workflow(dict_, global_dict, pointers_memo) -> Workflow:
     if 'nonblock_variables' in dict_:
         nonblock_variables = [deserialize(serialized_element=d, global_dict=global_dict, pointers_memo=pointers_memo)
                               for d in dict_['nonblock_variables']]
+        for variable, variable_dict in zip(nonblock_variables, dict_['nonblock_variables']):
+            if variable_dict.get("locked"):
+                variable.lock()
     else:
         nonblock_variables = []
 
-- 
2.43.0


From 9014156aa261a21df97e4f5bf12fd46941337b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:11 +0000
Subject: [PATCH 25/85] fix: a workflow state keeps all the values it needs to
 be continued after deserialization

---
 dessia_common/workflow/core.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index a0e7417..f08a4e9 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1791,19 +1791,19 @@ class WorkflowState(DessiaObject):
         # Values
         values = {}
         for pipe, value in self.values.items():
-            if not is_file_or_file_sequence(value) and pipe in self.workflow.memorized_pipes:
+            if not is_file_or_file_sequence(value):
                 pipe_index = self.workflow.pipes.index(pipe)
-                if use_pointers:
-                    try:
+                try:
+                    if use_pointers:
                         serialized_value, memo = serialize_with_pointers(value=value, memo=memo,
                                                                          path=f"{path}/values/{pipe_index}",
                                                                          id_memo=id_memo)
-                        values[str(pipe_index)] = serialized_value
-                    except SerializationError:
-                        warnings.warn(f"unable to serialize {value}, dropping it from workflow state/run values",
-                                      SerializationWarning)
-                else:
-                    values[str(pipe_index)] = serialize(value)
+                    else:
+                        serialized_value = serialize(value)
+                    values[str(pipe_index)] = serialized_value
+                except SerializationError:
+                    warnings.warn(f"unable to serialize {value}, dropping it from workflow state/run values",
+                                  SerializationWarning)
         dict_["values"] = values
 
         # In the future comment these below and rely only on activated items
-- 
2.43.0


From 9119aa076704bd5d69106a6b63d3ac47229f0ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:51 +0000
Subject: [PATCH 26/85] fix: copying a workflow keeps its description and
 documentation

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index f08a4e9..3349a41 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -552,7 +552,8 @@ class Workflow(Block):
 
         # Steps need a workflow that has pipe in order to handle NBVs and detached variables
         steps = [self.copy_step(copied_workflow=piped_workflow, step=s) for s in self.steps]
-        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, name=self.name)
+        workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
+                            documentation=self.documentation, name=self.name)
 
         # Locking variables
         for i, input_ in enumerate(self.inputs):
-- 
2.43.0


From 1c561fb9a3912dae47f3a6558c0d69c13ea23200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:51 +0000
Subject: [PATCH 27/85] fix: copying a workflow keeps the labels, default
 values and locks of its variables

---
 dessia_common/workflow/core.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 3349a41..387385b 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -146,12 +146,16 @@ class Variable(DessiaObject):
         """
         if memo is None:
             memo = {}
-        default_value = deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
-        variable = Variable(type_=self.type_, default_value=default_value, name=self.name)
+        variable = Variable(type_=self.type_, default_value=self.copy_default_value(memo), name=self.name,
+                            label=self.label, position=self.position)
         if self.locked:
             variable.lock()
         return variable
 
+    def copy_default_value(self, memo):
+        """ Deep copy of the default value, if there is one. """
+        return deepcopy_value(self.default_value, memo=memo) if self.has_default_value else UNDEFINED
+
     def _to_script(self) -> ToScriptElement:
         script = self._get_to_script_elements()
         script.declaration = f"{self.__class__.__name__}({script.declaration})"
@@ -555,10 +559,14 @@ class Workflow(Block):
         workflow = Workflow(blocks=blocks, pipes=pipes, output=output, steps=steps, description=self.description,
                             documentation=self.documentation, name=self.name)
 
-        # Locking variables
-        for i, input_ in enumerate(self.inputs):
-            if input_.locked:
-                workflow.inputs[i].lock(input_.default_value)
+        # Blocks generate their own variables: restoring what was set on them
+        for block, copied_block in zip(self.blocks, workflow.blocks):
+            copied_variables = copied_block.inputs + copied_block.outputs
+            for variable, copied_variable in zip(block.inputs + block.outputs, copied_variables):
+                copied_variable.label = variable.label
+                copied_variable.default_value = variable.copy_default_value(memo)
+                if variable.locked:
+                    copied_variable.lock()
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-- 
2.43.0


From 2a5535f6490bdd29a42fd35569400bb17518fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:51 +0000
Subject: [PATCH 28/85] fix: the copy of a workflow state has its own values

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 387385b..29fdceb 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1693,7 +1693,7 @@ class WorkflowState(DessiaObject):
         for pipe, value in self.values.items():
             variable_indices = self.workflow.pipe_variable_indices(pipe)
             copied_pipe = workflow.pipe_from_variable_indices(*variable_indices)
-            values[copied_pipe] = value
+            values[copied_pipe] = deepcopy_value(value=value, memo=memo)
 
         activated_items = {}
         for item, value in self.activated_items.items():
-- 
2.43.0


From 5943899452138835a70546e6ec297c6917913550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 29/85] fix: copying a step keeps the display inputs it shares
 with previous steps

---
 dessia_common/workflow/core.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 29fdceb..17340d8 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -570,14 +570,9 @@ class Workflow(Block):
         return workflow
 
     def copy_step(self, copied_workflow: 'Workflow', step: Step) -> Step:
-        inputs = []
-        group_inputs = []
-        for input_ in step.inputs:
-            input_index = self.variable_indices(input_)
-            copied_input = copied_workflow.variable_from_index(input_index)
-            inputs.append(copied_input)
-            if input_ in step.group_inputs:
-                group_inputs.append(copied_input)
+        inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.inputs]
+        # Group inputs may belong to previous steps
+        group_inputs = [copied_workflow.variable_from_index(self.variable_indices(i)) for i in step.group_inputs]
         copied_step = Step(label=step.label, inputs=inputs, group_id=step.group_id, documentation=step.documentation,
                            display_variable_index=step.display_variable_index, id_=step.id_)
         copied_step.group_inputs = group_inputs
-- 
2.43.0


From 04eae81faa4b87f9408c7d05dfd098706d403ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:05 +0000
Subject: [PATCH 30/85] fix: the Sum block sums its input values

---
 dessia_common/workflow/blocks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 632d8e5..9788ff7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1322,12 +1322,8 @@ class Sum(Block):
         return block
 
     def evaluate(self, values, **kwargs):
-        """
-        Sum input values.
-
-        TODO : This cannot work, we are summing a dictionary
-        """
-        return [sum(values)]
+        """ Sum input values. """
+        return [sum(values[i] for i in self.inputs)]
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-- 
2.43.0


From 92b8915d141d06e5557551005c1caae69f3d7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:05 +0000
Subject: [PATCH 31/85] fix: a model method that raises a TypeError is not run
 a second time

---
 dessia_common/workflow/blocks.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 9788ff7..738943e 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -256,12 +256,11 @@ class ModelMethod(Block):
         """ Run given method with arguments that are in values. """
         arguments = {i.name: values[i] for i in self.inputs[1:] if i in values}
         method = getattr(values[self.inputs[0]], self.method_type.name)
-        try:
-            # Trying to inject progress callback to method
-            result = method(progress_callback=progress_callback, **arguments)
-        except TypeError:
-            result = method(**arguments)
-        return [result, values[self.inputs[0]]]
+        parameters = inspect.signature(method).parameters.values()
+        if any(p.name == "progress_callback" or p.kind is p.VAR_KEYWORD for p in parameters):
+            # Injecting progress callback to method
+            arguments["progress_callback"] = progress_callback
+        return [method(**arguments), values[self.inputs[0]]]
 
     def package_mix(self):
         """ Add block contribution to workflow's package_mix. """
-- 
2.43.0


From 35b003e78722f2fc53572503fc7f89ef9bab2572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:50 +0000
Subject: [PATCH 32/85] fix: copying a method or attribute type keeps its class

---
 dessia_common/typings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/typings.py b/dessia_common/typings.py
index b68bdc8..09f91c5 100644
--- a/dessia_common/typings.py
+++ b/dessia_common/typings.py
@@ -31,7 +31,7 @@ class MethodType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return MethodType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     def get_method(self):
         """ Helper to get real method from class_ and method name. """
@@ -71,7 +71,7 @@ class AttributeType(Generic[T]):
         self.name = name
 
     def __deepcopy__(self, memo=None):
-        return AttributeType(self.class_, self.name)
+        return self.__class__(self.class_, self.name)
 
     @property
     def type_(self):
-- 
2.43.0


From 9f657b8f345d37202b189c0271a02bb9e6c6400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:23 +0000
Subject: [PATCH 33/85] fix: comparing a filter to something else answers False
 instead of raising

---
 dessia_common/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 8141f39..287a98d 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -872,6 +872,8 @@ class DessiaFilter(DessiaObject):
         return int(hash_)
 
     def __eq__(self, other: 'DessiaFilter'):
+        if not isinstance(other, DessiaFilter):
+            return False
         same_attr = self.attribute == other.attribute
         same_op = self.comparison_operator == other.comparison_operator
         same_bound = self.bound == other.bound
-- 
2.43.0


From c6f8c6c04a2f2efc997bb56953e88a3e2a4dc617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:24 +0000
Subject: [PATCH 34/85] fix: workflows whose filters are combined differently
 do not compare equal

---
 dessia_common/workflow/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 738943e..0723b50 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -656,7 +656,8 @@ class Filter(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        return super().equivalent(other) and self.filters == other.filters
+        same_operator = self.logical_operator == other.logical_operator
+        return super().equivalent(other) and self.filters == other.filters and same_operator
 
     @classmethod
     def dict_to_object(cls, dict_: JsonSerializable, **kwargs) -> 'Filter':
-- 
2.43.0


From 5c36e02a4bcdbd898067cb074eabf5c336f1910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:24 +0000
Subject: [PATCH 35/85] fix: workflows instantiating different classes do not
 compare equal

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 0723b50..d7c2832 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -98,8 +98,8 @@ class InstantiateModel(Block):
 
     def equivalent(self, other):
         """ Return whether the block is equivalent to the other given or not. """
-        classname = self.model_class.__class__.__name__
-        other_classname = other.model_class.__class__.__name__
+        classname = self.model_class.__name__
+        other_classname = other.model_class.__name__
         return super().equivalent(other) and classname == other_classname
 
     @classmethod
-- 
2.43.0


From 18d4e6ce26752b6f8a9a896d303eda717b2715d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:46 +0000
Subject: [PATCH 36/85] fix: comparing workflows made of different kinds of
 blocks answers False instead of raising

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 17340d8..2394fb5 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -489,7 +489,7 @@ class Workflow(Block):
 
         # TODO: temp , reuse graph to handle block order!!!!
         for block1, block2 in zip(self.blocks, other_object.blocks):
-            if not block1.equivalent(block2):
+            if block1.__class__ is not block2.__class__ or not block1.equivalent(block2):
                 return False
 
         if not self._equivalent_pipes(other_object):
-- 
2.43.0


From 8d411186b10f853c2271238a31a0c5754161371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:23 +0000
Subject: [PATCH 37/85] fix: evaluating the next block of a state no longer
 repeats an already evaluated secondary block

---
 dessia_common/workflow/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 2394fb5..6f19eba 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1947,9 +1947,9 @@ class WorkflowState(DessiaObject):
         return False
 
     def evaluate_next_block(self, progress_callback=lambda x: None) -> Optional[Block]:
-        """ Evaluate a block. """
+        """ Evaluate a block that has not been evaluated yet. """
         self.activate_inputs()
-        blocks = self._activable_blocks()
+        blocks = [b for b in self._activable_blocks() if not self.activated_items[b]]
         if blocks:
             block_index = self.workflow.blocks.index(blocks[0])
             self.block_evaluation(block_index, progress_callback=progress_callback)
-- 
2.43.0


From ac9261a25173f2d9876f34dea41616fc259342c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 38/85] fix: dictionaries with keys that JSON cannot write are
 no longer declared serializable

---
 dessia_common/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 832ae4d..81b5382 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -806,7 +806,7 @@ def is_serializable(obj):
         return dcty.is_jsonable(dict_)
     if isinstance(obj, dict):
         for key, value in obj.items():
-            if not is_serializable(key) or not is_serializable(value):
+            if not dcty.is_jsonable({key: None}) or not is_serializable(value):
                 return False
         return True
     if is_sequence(obj):
-- 
2.43.0


From 7b8c0964f8c02ceb2345fafd6117bab8b65ad2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 39/85] fix: type matching ignores that a type is optional,
 however it is written

---
 dessia_common/utils/types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index 7242719..d024415 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -301,6 +301,10 @@ def typematch(type_: Type, match_against: Type) -> bool:
     """
     # TODO Implement a more intelligent check for Unions : Union[T, U] should match against Union[T, U, V]
     # TODO Implement a check for Dict
+    # Being optional is not considered while matching
+    type_, _, _ = heal_type(type_)
+    match_against, origin, args = heal_type(match_against)
+
     if type_ == match_against or match_against is Any or particular_typematches(type_, match_against):
         # Trivial cases. If types are strictly equal, then it should pass straight away
         return True
@@ -314,7 +318,6 @@ def typematch(type_: Type, match_against: Type) -> bool:
             return True
 
     # type_ is not complex and match_against is
-    match_against, origin, args = heal_type(match_against)
     if origin is Union:
         matches = [typematch(type_, subtype) for subtype in args]
         return any(matches)
@@ -372,7 +375,7 @@ def heal_type(type_: Type):
     if type_origin is Union:
         # Check for default values false positive
         if union_is_default_value(type_):
-            type_ = type_args[0]
+            type_ = next(arg for arg in type_args if arg is not type(None))
             type_origin = get_origin(type_)
             type_args = get_args(type_)
     return type_, type_origin, type_args
-- 
2.43.0


From bad74cd91386c49cc89368d2d23a4d4e021a3c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 40/85] fix: tuple types of different lengths do not match

---
 dessia_common/utils/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index d024415..ea86079 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -344,7 +344,9 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
         return typematch(type_args[0], match_against_args[0])
 
     if type_origin is tuple:
-        # Order matters, all arguments should match
+        # Order matters, there must be as many arguments and all of them should match
+        if len(type_args) != len(match_against_args) or (Ellipsis in type_args) != (Ellipsis in match_against_args):
+            return False
         return all(typematch(a, b) for a, b in zip(type_args, match_against_args))
 
     if type_origin is dict:
-- 
2.43.0


From d866cee229de026b6f48fe6a0a5ce289c2f9a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 41/85] fix: complex types match the unions that hold them

---
 dessia_common/utils/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/utils/types.py b/dessia_common/utils/types.py
index ea86079..f5196f1 100644
--- a/dessia_common/utils/types.py
+++ b/dessia_common/utils/types.py
@@ -335,6 +335,10 @@ def complex_first_type_match(type_: Type, match_against: Type) -> bool:
     type_, type_origin, type_args = heal_type(type_)
     match_against, match_against_origin, match_against_args = heal_type(match_against)
 
+    if match_against_origin is Union and type_origin is not Union:
+        # As for simple types, matching any of the arguments is enough
+        return any(typematch(type_, subtype) for subtype in match_against_args)
+
     if type_origin != match_against_origin:
         # Being strict for now. Is there any other case than default values where this would be wrong ?
         return False
-- 
2.43.0


From 73766e76fad1920128e1f5d53987546879f88b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:29 +0000
Subject: [PATCH 42/85] fix: an optional annotation written with None first is
 serialized as the type it makes optional

---
 dessia_common/schemas/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 380665c..7fc832e 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -699,7 +699,7 @@ class ProxyProperty(TypingProperty):
     def __init__(self, annotation: Type[T], attribute: SchemaAttribute):
         super().__init__(annotation=annotation, attribute=attribute)
 
-        self.annotation = self.args[0]
+        self.annotation = next(arg for arg in self.args if arg is not type(None))
 
     @property
     def schema(self) -> Property:
-- 
2.43.0


From aaa219237947ca765bcb1100acb954559a52b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:29 +0000
Subject: [PATCH 43/85] fix: tuple annotations holding tuples of undefined
 length are deserialized as they were

---
 dessia_common/schemas/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 7fc832e..04893bf 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1110,10 +1110,9 @@ class HeterogeneousSequence(TypingProperty):
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[Tuple]:
         """ Deserialize Tuple annotation with undefined length support. """
-        rawargs = cls._raw_args_from_serialized(serialized)
-        if ",..." in rawargs:
-            arg = rawargs.split(",...")[0]
-            subtype = deserialize_annotation(arg)
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        if len(args) == 2 and args[1] == "...":
+            subtype = deserialize_annotation(args[0])
             return Tuple[subtype, ...]
         return Tuple[TypingProperty._args_from_serialized(serialized)]
 
-- 
2.43.0


From 1c0b4950141dc1a12945a12b865608931be5eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 44/85] fix: the words of a literal annotation keep their
 spaces, commas and brackets when deserialized

---
 dessia_common/schemas/core.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 04893bf..c9e1f4d 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -650,8 +650,7 @@ class TypingProperty(Property):
     def _raw_args_from_serialized(cls, serialized: str) -> str:
         """ Get arguments as str from serialized value. """
         if "[" in serialized and "]" in serialized:
-            args = re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
-            return args.replace(" ", "")
+            return re.match(cls.SERIALIZED_REGEXP, serialized).group(2)
         return ""
 
     @classmethod
@@ -1643,8 +1642,8 @@ class EnumProperty(TypingProperty):
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Specifically reset args as a tuple while removing one layer of single quotes. """
-        args = cls._raw_args_from_serialized(serialized)
-        return Literal[tuple(args.replace("'", "").split(","))]
+        args = extract_args(cls._raw_args_from_serialized(serialized))
+        return Literal[tuple(a.replace("'", "") for a in args)]
 
     @property
     def get_import_name(self):
@@ -1856,18 +1855,23 @@ def extract_args(string: str) -> List[str]:
     Extract first level arguments from serialized typing.
 
     This function does not split by commas when we are down to second level annotations
-    and has been preferred to regexp for this reason.
+    and has been preferred to regexp for this reason. What stands between single quotes is kept as it is.
     """
+    quoted = False
     opened_brackets = 0
     closed_brackets = 0
     current_arg = ""
     arguments = []
-    for character in string.replace(" ", ""):
-        if character == "[":
+    for character in string:
+        if character == "'":
+            quoted = not quoted
+        if character == " " and not quoted:
+            continue
+        if character == "[" and not quoted:
             opened_brackets += 1
-        if character == "]":
+        if character == "]" and not quoted:
             closed_brackets += 1
-        split_by_comma = closed_brackets == opened_brackets
+        split_by_comma = closed_brackets == opened_brackets and not quoted
         if split_by_comma and character == ",":
             # We are at first level, because we closed as much brackets as we have opened
             # Current argument is complete, we append it to arguments sequence and reset current arguments
-- 
2.43.0


From 7b0842ce490972243b1d0e81804116d4370c9ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 45/85] fix: the gradient optimization following a CMA one
 starts at the point it found

---
 dessia_common/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/optimization.py b/dessia_common/optimization.py
index a995b7f..3df65f4 100644
--- a/dessia_common/optimization.py
+++ b/dessia_common/optimization.py
@@ -52,6 +52,8 @@ class BoundedAttributeValue(DessiaObject):
 
     def dimensionless_value(self, value: float):
         """ Method to compute the dimensionless value out of the given one. """
+        if self.interval_length == 0:
+            return 0.
         return (value - self.min_value) / self.interval_length
 
 
@@ -163,7 +165,8 @@ class InstantiatingModelOptimizer(Optimizer):
     def optimize_cma_then_gradient(self, method: str = 'L-BFGS-B'):
         """ Optimize a problem by combining a CMA for global optimum search and gradient for polishing. """
         model_cma, fx_cma = self.optimize_cma()
-        x0 = npy.array([getattr(model_cma, attr.attribute_name) for attr in self.optimization_bounds])
+        x0 = npy.array([attr.dimensionless_value(getattr(model_cma, attr.attribute_name))
+                        for attr in self.optimization_bounds])
         model, best_fx = self.optimize_gradient(method=method, x0=x0)
         if fx_cma <= best_fx:
             model = model_cma
-- 
2.43.0


From ca0f62ddd3bb51e99a426b4b3b82a7c3ee65c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:25 +0000
Subject: [PATCH 46/85] fix: the position of a value on decreasing or repeated
 samples is the one where it is interpolated

---
 dessia_common/utils/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dessia_common/utils/interpolation.py b/dessia_common/utils/interpolation.py
index b928f2b..53efd65 100644
--- a/dessia_common/utils/interpolation.py
+++ b/dessia_common/utils/interpolation.py
@@ -10,7 +10,9 @@ def istep_from_value_on_list(list_: List[float], value: float,
     for ipoint, (point1, point2) in enumerate(zip(list_[:-1], list_[1:])):
         point1_s, point2_s = sorted((point1, point2))
         if point1_s <= value <= point2_s:
-            alpha = (value - point1_s) / (point2_s - point1_s)
+            if point1 == point2:
+                return float(ipoint)
+            alpha = (value - point1) / (point2 - point1)
             if alpha < 0 or alpha > 1:
                 raise ValueError
             return ipoint + alpha
-- 
2.43.0


From b74594dd703ac588d640f59c90decd30245f8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:31 +0000
Subject: [PATCH 47/85] fix: real centroids are found whatever the labels of
 the clusters

---
 dessia_common/datatools/cluster.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index f6de37d..b58aa49 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -274,12 +274,10 @@ class ClusteredDataset(Dataset):
         """
         clustered_sublists = self._check_transform_sublists()
         kwargs = self._set_distance_kwargs(method, kwargs)
-        labels = clustered_sublists.labels
         cluster_distances = clustered_sublists.cluster_distances(method=method, **kwargs)
-        real_centroids = [[] for _ in labels]
-        for label in labels:
-            min_idx = cluster_distances[label].index(min(cluster_distances[label]))
-            real_centroids[label] = clustered_sublists.dessia_objects[label][min_idx]
+        real_centroids = []
+        for sublist, distances in zip(clustered_sublists.dessia_objects, cluster_distances):
+            real_centroids.append(sublist[distances.index(min(distances))])
         return real_centroids
 
     def _merge_sublists(self):
-- 
2.43.0


From c9d90ce519d819f6d8b9cacf2865af2c0ab62e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:48 +0000
Subject: [PATCH 48/85] fix: type checks of base types report the information
 they are asked for

---
 dessia_common/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/checks.py b/dessia_common/checks.py
index 5b25f29..cde8c2f 100644
--- a/dessia_common/checks.py
+++ b/dessia_common/checks.py
@@ -142,11 +142,11 @@ def type_check(value, expected_type, level: str = 'error'):
     This is experimental!
     """
     if expected_type is int:
-        return is_int(value)
+        return is_int(value, level=level)
     if expected_type is float:
-        return is_float(value)
+        return is_float(value, level=level)
     if expected_type is str:
-        return is_str(value)
+        return is_str(value, level=level)
 
     if not isinstance(value, expected_type):
         return CheckList([FailedCheck(f'Value {value} is not of type {expected_type}')])
-- 
2.43.0


From f8c9c3089eeba05d962d6bb735ee743778694a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 49/85] fix: optional, variadic and class arguments are
 deserialized from their serialized form

---
 dessia_common/serialization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dessia_common/serialization.py b/dessia_common/serialization.py
index 81b5382..94488f2 100644
--- a/dessia_common/serialization.py
+++ b/dessia_common/serialization.py
@@ -390,7 +390,7 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
     if origin is Union:
         # Check for Union false Positive (Default value = None)
         if len(args) == 2 and type(None) in args:
-            return deserialize_argument(type_=args[0], argument=argument)
+            return deserialize_argument(type_=next(a for a in args if a is not type(None)), argument=argument)
 
         # Type union
         classes = list(args)
@@ -424,6 +424,10 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
 
     elif origin is tuple:
         # Heterogeneous sequences (tuples)
+        if len(args) == 2 and args[1] is Ellipsis:
+            args = [args[0]] * len(argument)
+        if len(args) != len(argument):
+            raise TypeError(f"Given tuple should have {len(args)} elements, got {len(argument)} in {argument}")
         deserialized_arg = tuple(deserialize_argument(t, arg) for (t, arg) in zip(args, argument))
     elif origin is dict:
         # Dynamic dict
@@ -437,7 +441,7 @@ def deserialize_with_typing(type_, argument, global_dict=None, pointers_memo=Non
                                                  pointers_memo=pointers_memo, path=path)
     elif origin is Literal:
         deserialized_arg = argument
-    elif type_ == dcty.Type:
+    elif origin is type:
         deserialized_arg = dcty.is_classname_transform(argument)
     else:
         msg = "Deserialization of typing {} is not implemented"
-- 
2.43.0


From 06d6b0c4e801dd32907e2261041cc05b0a64851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 50/85] fix: default dictionaries hold no UNDEFINED placeholder

---
 dessia_common/schemas/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index c9e1f4d..6840354 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -276,7 +276,8 @@ class Schema:
         If a definition default have been set by user, most schemas will return this value (or serialized).
         if not, schemas will compute a default compatible with platform (None most of the time).
         """
-        return {a: s.default_value() for step in self.steps for a, s in step.property_schemas.items()}
+        defaults = {a: s.default_value() for step in self.steps for a, s in step.property_schemas.items()}
+        return {a: None if default is UNDEFINED else default for a, default in defaults.items()}
 
     def default_value(self) -> Dict[str, Any]:
         """
@@ -1650,6 +1651,12 @@ class EnumProperty(TypingProperty):
         """ Get class module and name as string."""
         return "typing.Literal"
 
+    def default_value(self):
+        """ Force None default value when undefined. """
+        if self.has_default_value:
+            return self.attribute.default_value
+        return None
+
     def to_dict(self) -> Dict[str, Any]:
         """ Write chunk of Any property. Useful for low-code features. """
         chunk = super().to_dict()
-- 
2.43.0


From 61d6cc426c643f2fd8be5ace9aa42988455b4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 51/85] fix: streams copied into text files give text files

---
 dessia_common/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/files.py b/dessia_common/files.py
index f20d390..3e546fa 100644
--- a/dessia_common/files.py
+++ b/dessia_common/files.py
@@ -82,7 +82,7 @@ class StringFile(io.StringIO):
     @classmethod
     def from_stream(cls, stream_file):
         """ Get a file from a stream file. """
-        stream = StringFile()
+        stream = cls()
         stream.write(stream_file.read().decode('utf-8'))
         stream.seek(0)
         return stream
-- 
2.43.0


From d84afb39f1d62fdccc7788f16aba27ead1c14694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 52/85] fix: layout columns of nodes that do not reach the end

---
 dessia_common/graph.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dessia_common/graph.py b/dessia_common/graph.py
index 98d216c..5206186 100644
--- a/dessia_common/graph.py
+++ b/dessia_common/graph.py
@@ -86,15 +86,12 @@ def get_column_by_node(graph: nx.DiGraph):
     for node in longest_path:
         columns[node] = longest_path.index(node)
 
-    for node in [n for n in graph.nodes if n not in longest_path]:
+    for node in [n for n in nx.topological_sort(graph) if n not in longest_path]:
         try:
             path = get_longest_path(graph, node, end_of_path)
             columns[node] = len(longest_path) - len(path)
         except nx.exception.NetworkXNoPath:
             # There is no path from node to end_of_path
-            for path in get_paths_from_to(graph, list(graph.nodes), [node]):
-                column_index = columns[path[0]] + len(path) - 1
-                if node not in columns or columns[node] < column_index:
-                    columns[node] = column_index
+            columns[node] = max((columns[n] + 1 for n in graph.predecessors(node)), default=0)
 
-    return columns
+    return {n: columns[n] for n in longest_path + [n for n in graph.nodes if n not in longest_path]}
-- 
2.43.0


From 6c97f82bade9e1c155bc498dfb9f0810076f53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 53/85] fix: decision trees whose last node is not valid end

---
 dessia_common/generation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dessia_common/generation.py b/dessia_common/generation.py
index 65e7c64..62cbacf 100644
--- a/dessia_common/generation.py
+++ b/dessia_common/generation.py
@@ -121,6 +121,9 @@ class DecisionTreeGenerator(TreeGenerator):
                 if verbose:
                     print('number possibilities', number_possibilities)
                 self.tree.SetCurrentNodeNumberPossibilities(number_possibilities)
+            else:
+                # Nothing is explored below an invalid node. Otherwise, the tree would never finish on it
+                self.tree.SetCurrentNodeNumberPossibilities(0)
 
             # TODO create a function in dectree to know if a leaf
             if valid and (number_possibilities == 0):
-- 
2.43.0


From dbca170b94e088c297b55d06980b87d8917d8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 54/85] fix: printed datasets end with their last objects

---
 dessia_common/datatools/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 268864d..4691614 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -202,7 +202,7 @@ class Dataset(DessiaObject):
             string += (f"\n+ {undispl_len} undisplayed object" + "s" * (min([undispl_len, 2]) - 1) + "...")
 
         if len(self) > 5:
-            string += self._print_objects_slice(slice(-5, len(self)), attr_space)
+            string += self._print_objects_slice(slice(max(5, len(self) - 5), len(self)), attr_space)
         return prefix + "\n" + string + "\n"
 
     def _printed_attributes(self):
@@ -212,7 +212,7 @@ class Dataset(DessiaObject):
 
     def _print_objects_slice(self, key: slice, attr_space: List[int]):
         string = ""
-        for index in range(len(self[key])):
+        for index in range(len(self))[key]:
             string += "\n"
             string += self._print_object(index, attr_space)
         return string
-- 
2.43.0


From 976c22a4f97c858f4c6295af3ca86625a6a596c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 55/85] fix: markdown tables show each row once, xlsx writers
 can save to a file

---
 dessia_common/exports.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index dcd2755..e76947d 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -262,7 +262,7 @@ class XLSXWriter:
             filepath += '.xlsx'
             print(f"Changing name to {filepath}")
 
-        with open(filepath, 'rb') as file:
+        with open(filepath, 'wb') as file:
             self.save_to_stream(file)
 
     def save_to_stream(self, stream):
@@ -326,7 +326,9 @@ class MarkdownWriter:
         return 'unnamed'
 
     def _value_to_str(self, value: Any) -> str:
-        if isinstance(value, (float, int, bool, complex)):
+        if isinstance(value, complex):
+            return str(complex(round(value.real, 6), round(value.imag, 6)))
+        if isinstance(value, (float, int, bool)):
             return str(round(value, 6))
         if isinstance(value, str):
             return value if value != '' else 'no value'
@@ -369,20 +371,14 @@ class MarkdownWriter:
         return string
 
     def _content_table(self, content: List[List[Any]]) -> str:
-        if self.table_limit is None:
+        if self.table_limit is None or len(content) <= self.table_limit:
             return self._table_rows_from_content(content)
 
-        table = ''
         half_table = int(self.table_limit / 2)
 
-        table += self._table_rows_from_content(content[:half_table])
-
-        if self.table_limit > 1:
-            if len(content) > self.table_limit:
-                table += f"| + {len(content) - self.table_limit} unprinted elements | |\n"
-
-            if len(content) > half_table:
-                table += self._table_rows_from_content(content[-half_table:])
+        table = self._table_rows_from_content(content[:self.table_limit - half_table])
+        table += f"| + {len(content) - self.table_limit} unprinted elements | |\n"
+        table += self._table_rows_from_content(content[len(content) - half_table:])
 
         return table
 
-- 
2.43.0


From e2b18ff5f24b5967539e73f696c122b5acac0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 56/85] fix: exports of the same extension do not share a name
 in archives

---
 dessia_common/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index 287a98d..cb96365 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -560,7 +560,11 @@ class DessiaObject(SerializableObject):
             if export_format.extension != "zip":
                 method_name = export_format.method_name
                 stream_class = dcf.StringFile if export_format.text else dcf.BinaryFile
-                stream = stream_class(filename=f"export.{export_format.extension}")
+                filename = f"export.{export_format.extension}"
+                if any(filename == s.filename for s in streams):
+                    # Several exports can share the same extension
+                    filename = f"export_{len(streams)}.{export_format.extension}"
+                stream = stream_class(filename=filename)
                 getattr(self, method_name)(stream)
                 streams.append(stream)
         return streams
-- 
2.43.0


From c9c5504212b8c6b2c5e55d6587435a9c4757924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 57/85] fix: archiving gives the archive back

---
 dessia_common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index cb96365..a5b9685 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -576,7 +576,7 @@ class DessiaObject(SerializableObject):
         archive.filename = archive_name
         with zipfile.ZipFile(archive, 'w', compression=zipfile.ZIP_DEFLATED) as zip_archive:
             for value in streams:
-                archive = dcf.generate_archive(zip_archive=zip_archive, value=value)
+                dcf.generate_archive(zip_archive=zip_archive, value=value)
         return [archive]
 
     def to_zip(self, filepath: str):
-- 
2.43.0


From 83cf101e323f89cbfefa3712775bf5151172876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 58/85] fix: docx exports are binary

---
 dessia_common/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/decorators.py b/dessia_common/decorators.py
index 28dfc5d..7bedfce 100644
--- a/dessia_common/decorators.py
+++ b/dessia_common/decorators.py
@@ -158,7 +158,7 @@ def export_docx(selector: str):
 
     :param str selector: Unique name that identifies the export method.
     """
-    return export_decorator(selector, 'docx', is_text=True)
+    return export_decorator(selector, 'docx', is_text=False)
 
 
 def export_xlsx(selector: str):
-- 
2.43.0


From 9a82ee77dbca80c6f97ec86c95dc911799e31d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 59/85] fix: exports of workflow blocks are written in any
 stream, and found by selector

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 6f19eba..b082fe9 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2103,7 +2103,7 @@ class WorkflowState(DessiaObject):
     def export_format_from_selector(self, selector: str):
         """ Get Workflow State format from given selector. """
         for export_format in self.workflow.blocks_export_formats:
-            if export_format["selector"] == selector:
+            if export_format.selector == selector:
                 return export_format
         raise ValueError(f"No block defines an export with the selector '{selector}'")
 
@@ -2119,9 +2119,9 @@ class WorkflowState(DessiaObject):
                   f"Has the workflow been ran far enough to evaluate this block ?"
             raise WorkflowError(msg)
         export_stream = evaluated_blocks[block][0]  # Only one output to an Export Block
-        if isinstance(stream, StringFile):
+        if isinstance(export_stream, StringFile):
             stream.write(export_stream.getvalue())
-        if isinstance(stream, BinaryFile):
+        if isinstance(export_stream, BinaryFile):
             stream.write(export_stream.getbuffer())
         stream.filename = export_stream.filename
         return export_stream
-- 
2.43.0


From 601b583755bbbbce7a6c26e44b7df2bc72c23651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 60/85] fix: the script of a Filter block is valid python

---
 dessia_common/workflow/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index d7c2832..195a8e7 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -682,8 +682,8 @@ class Filter(Block):
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
                             f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound}, name='{f.name}')" for f in self.filters]
-        filters = f"[{','.join(filter_variables)}"
+                            f"bound={f.bound!r}, name='{f.name}')" for f in self.filters]
+        filters = f"[{','.join(filter_variables)}]"
         script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
-- 
2.43.0


From b597f2dbd8421273c196502b5b7f3441452d7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 61/85] fix: the script of a SetModelAttribute block imports
 what it uses

---
 dessia_common/workflow/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 195a8e7..d6b56c8 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1289,7 +1289,10 @@ class SetModelAttribute(Block):
         script = f"SetModelAttribute(attribute_type=AttributeType(" \
                  f"{self.attribute_type.class_.__name__}, name=\"{self.attribute_type.name}\")" \
                  f", {self.base_script()})"
-        return ToScriptElement(declaration=script, imports=[self.full_classname])
+        imports = [full_classname(object_=self.attribute_type, compute_for="instance"),
+                   full_classname(object_=self.attribute_type.class_, compute_for="class"),
+                   self.full_classname]
+        return ToScriptElement(declaration=script, imports=imports)
 
 
 class Sum(Block):
-- 
2.43.0


From 77e26cc365e457d02440702791bf4023a48aa0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 62/85] fix: the script of a ConcatenateStrings block keeps its
 position

---
 dessia_common/workflow/blocks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index d6b56c8..3a09d4c 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -1402,8 +1402,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', " \
-                 f"name='{self.name}')"
+                 f"separator='{self.separator}', {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
-- 
2.43.0


From 6602cb17025afdc2db2a479432b18798d997d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 63/85] fix: the script of a DeprecatedMultiPlot block names
 the class it imports

---
 dessia_common/workflow/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 3a09d4c..0941b0f 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -826,7 +826,7 @@ class DeprecatedMultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(attributes={self.attributes}, {self.base_script()})"
+        script = f"{self.display_class_name}(attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
-- 
2.43.0


From a77779f4f99b67e9d95d1ea5410ec45e52de7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 64/85] fix: the script of a workflow keeps its documentation
 next to those of its sub workflows

---
 dessia_common/workflow/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b082fe9..563d7b5 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1331,11 +1331,11 @@ class Workflow(Block):
                       f"{nbvs_str}\n" \
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
-                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, documentation=documentation," \
-                      f" name=\"{self.name}\")\n"
+                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, " \
+                      f"documentation={prefix}documentation, name=\"{self.name}\")\n"
 
         imports.append(self.full_classname)
-        full_script = f'documentation = """{self.documentation}"""\n\n' + full_script
+        full_script = f'{prefix}documentation = """{self.documentation}"""\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
-- 
2.43.0


From 7f470c20f21ee75a24fd8458e8fb96aa4f0ee04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 65/85] fix: workflow scripts quote the strings they hold

---
 dessia_common/workflow/blocks.py | 32 +++++++++++++++-----------------
 dessia_common/workflow/core.py   | 11 ++++++-----
 dessia_common/workflow/utils.py  |  6 ++++++
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/dessia_common/workflow/blocks.py b/dessia_common/workflow/blocks.py
index 0941b0f..6f7aae9 100644
--- a/dessia_common/workflow/blocks.py
+++ b/dessia_common/workflow/blocks.py
@@ -19,7 +19,7 @@ from dessia_common.utils.helpers import (concatenate, full_classname, get_python
 from dessia_common.breakdown import attrmethod_getter
 from dessia_common.exports import ExportFormat
 from dessia_common.workflow.core import Block, Variable, Workflow
-from dessia_common.workflow.utils import ToScriptElement
+from dessia_common.workflow.utils import ToScriptElement, quoted
 import plot_data as pd
 
 T = TypeVar("T")
@@ -681,10 +681,10 @@ class Filter(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         filter_variables = [f"DessiaFilter("
-                            f"attribute='{f.attribute}', comparison_operator='{f.comparison_operator}', "
-                            f"bound={f.bound!r}, name='{f.name}')" for f in self.filters]
+                            f"attribute={f.attribute!r}, comparison_operator={f.comparison_operator!r}, "
+                            f"bound={f.bound!r}, name={f.name!r})" for f in self.filters]
         filters = f"[{','.join(filter_variables)}]"
-        script = f"Filter(filters={filters}, logical_operator='{self.logical_operator}', {self.base_script()})"
+        script = f"Filter(filters={filters}, logical_operator={self.logical_operator!r}, {self.base_script()})"
 
         imports = [DessiaFilter("", "", 0).full_classname, self.full_classname]
         return ToScriptElement(declaration=script, imports=imports)
@@ -750,21 +750,21 @@ class Display(Block):
 
     def to_script_selector(self) -> ToScriptElement:
         """ Write Block's Selector config into a chunk of script. """
-        script = f"{self.selector_class_name}(name='{self.name}')"
+        script = f"{self.selector_class_name}(name={self.name!r})"
         selector_class_ = full_classname(self.selector.class_, compute_for="class")
         selector_class_name = f"{self.selector.__module__}.{self.selector_class_name}"
         return ToScriptElement(declaration=script, imports=[selector_class_, selector_class_name])
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", load_by_default={self.load_by_default}, position={self.position}"
+        return f"name={quoted(self.name)}, load_by_default={self.load_by_default}, position={self.position}"
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         imports = [self.full_classname]
         script_selector = self.to_script_selector()
         script = f"{self.display_class_name}(selector={self.selector_class_name}(" \
-                 f"class_={self.selector.class_.__name__}, name='{self.selector.name}')" \
+                 f"class_={self.selector.class_.__name__}, name={self.selector.name!r})" \
                  f", {self.base_script()})"
 
         imports.extend(script_selector.imports)
@@ -891,7 +891,7 @@ class MultiPlot(Display):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"MultiPlot(selector_name='{self.selector.name}', attributes={self.attributes}, {self.base_script()})"
+        script = f"MultiPlot(selector_name={self.selector.name!r}, attributes={self.attributes}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
     def to_dict(self, use_pointers: bool = True, memo=None, path: str = '#',
@@ -980,7 +980,7 @@ class MultiObject(Display):
         imports = [c.full_classname for c in self.configurations] + [self.full_classname]
         configurations = [f"{c._to_script()}" for c in self.configurations]
         script = ("MultiObject("
-                  f"selector_name='{self.selector.name}',"
+                  f"selector_name={self.selector.name!r},"
                   f" configurations=[{', '.join(configurations)}],"
                   f" {self.base_script()})")
         return ToScriptElement(declaration=script, imports=imports)
@@ -1191,7 +1191,7 @@ class ModelAttribute(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"ModelAttribute(attribute_name='{self.attribute_name}', {self.base_script()})"
+        script = f"ModelAttribute(attribute_name={self.attribute_name!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
    
@@ -1402,7 +1402,7 @@ class ConcatenateStrings(Block):
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
         script = f"ConcatenateStrings(number_elements={self.number_elements}, " \
-                 f"separator='{self.separator}', {self.base_script()})"
+                 f"separator={self.separator!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1465,7 +1465,7 @@ class Export(Block):
         """ Write block config into a chunk of script. """
         script = f"Export(method_type=MethodType(" \
                  f"{self.method_type.class_.__name__}, '{self.method_type.name}')" \
-                 f", filename='{self.filename}', extension='{self.extension}'" \
+                 f", filename={self.filename!r}, extension={self.extension!r}" \
                  f", text={self.text}, {self.base_script()})"
 
         imports = [self.full_classname, full_classname(object_=self.method_type, compute_for="instance"),
@@ -1528,7 +1528,7 @@ class Archive(Block):
 
     def _to_script(self, _) -> ToScriptElement:
         """ Write block config into a chunk of script. """
-        script = f"Archive(number_exports={self.number_exports}, filename='{self.filename}', {self.base_script()})"
+        script = f"Archive(number_exports={self.number_exports}, filename={self.filename!r}, {self.base_script()})"
         return ToScriptElement(declaration=script, imports=[self.full_classname])
 
 
@@ -1558,8 +1558,7 @@ class ScatterView(PlotDataView):
                           elements=samples, name=self.name)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=('{attributes}'), name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={tuple(self.attributes)}, name={self.name!r})"
 
 
 class ParallelView(PlotDataView):
@@ -1573,5 +1572,4 @@ class ParallelView(PlotDataView):
         return pd.ParallelPlot(elements=samples, disposition="horizontal", axes=self.attributes)
 
     def _to_script(self) -> str:
-        attributes = "', '".join(self.attributes)
-        return f"{self.__class__.__name__}(attributes=['{attributes}'], name='{self.name}')"
+        return f"{self.__class__.__name__}(attributes={self.attributes}, name={self.name!r})"
diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 563d7b5..b3236e7 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -34,7 +34,7 @@ from dessia_common.exports import ExportFormat, MarkdownWriter
 import dessia_common.templates
 from dessia_common.serialization import (deserialize, serialize_with_pointers, serialize, update_pointers_data,
                                          add_references, deserialize_argument)
-from dessia_common.workflow.utils import (ToScriptElement, blocks_to_script, nonblock_variables_to_script,
+from dessia_common.workflow.utils import (ToScriptElement, quoted, blocks_to_script, nonblock_variables_to_script,
                                           update_imports, generate_default_value)
 
 
@@ -166,7 +166,7 @@ class Variable(DessiaObject):
     def _get_to_script_elements(self):
         schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
         imports = schema.get_import_names(import_names=[])
-        declaration = f"name='{self.name}', label='{self.label}', position={self.position}," \
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
                       f" type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
@@ -229,7 +229,7 @@ class Block(DessiaObject):
 
     def base_script(self) -> str:
         """ Generate a chunk of script that denotes the arguments of a base block. """
-        return f"name=\"{self.name}\", position={self.position}"
+        return f"name={quoted(self.name)}, position={self.position}"
 
     def evaluate(self, values, **kwargs):
         """ Not implemented for abstract block class 'evaluate' method. """
@@ -1332,10 +1332,11 @@ class Workflow(Block):
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
                       f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, " \
-                      f"documentation={prefix}documentation, name=\"{self.name}\")\n"
+                      f"documentation={prefix}documentation, name={quoted(self.name)})\n"
 
         imports.append(self.full_classname)
-        full_script = f'{prefix}documentation = """{self.documentation}"""\n\n' + full_script
+        documentation = self.documentation.replace("\\", "\\\\").replace('"', '\\"').replace("\r", "\\r")
+        full_script = f'{prefix}documentation = """{documentation}"""\n\n' + full_script
         return ToScriptElement(declaration=full_script, imports=imports, imports_as_is=imports_as_is)
 
     def to_script(self) -> str:
diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 5e7fe09..6f5f372 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -48,6 +48,12 @@ class ToScriptElement:
         return imports_dict
 
 
+def quoted(string: str) -> str:
+    """ Write a string as a python literal between double quotes, whatever its characters. """
+    escaped = string.replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n").replace("\r", "\\r")
+    return f"\"{escaped}\""
+
+
 def blocks_to_script(blocks, prefix: str, imports):
     """ Set Blocks to script. """
     blocks_str = ""
-- 
2.43.0


From 768bc7afa67dc02b4f06a0f13dca7289ff8babb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 66/85] fix: workflow scripts lock variables on their own
 values

---
 dessia_common/workflow/utils.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 6f5f372..9a4cada 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Utilities for workflows. """
 
+import math
 from typing import List, Dict
 
 from dessia_common.schemas.core import get_schema, SchemaAttribute
@@ -54,6 +55,23 @@ def quoted(string: str) -> str:
     return f"\"{escaped}\""
 
 
+def is_literal(value) -> bool:
+    """ Whether the representation of the value is a python literal. """
+    if type(value) in (list, tuple):
+        return all(is_literal(v) for v in value)
+    if type(value) is dict:
+        return all(is_literal(k) and is_literal(v) for k, v in value.items())
+    if type(value) is float:
+        return math.isfinite(value)
+    return value is None or type(value) in (bool, int, str)
+
+
+def lock_to_script(name: str, variable) -> str:
+    """ Lock the variable of given name, with its value if it can be written in a script. """
+    value = repr(variable.default_value) if is_literal(variable.default_value) else ""
+    return f"{name}.lock({value})\n"
+
+
 def blocks_to_script(blocks, prefix: str, imports):
     """ Set Blocks to script. """
     blocks_str = ""
@@ -67,7 +85,7 @@ def blocks_to_script(blocks, prefix: str, imports):
         blocks_str += f"{block_name} = {block_script.declaration}\n"
         for i, input_ in enumerate(block.inputs):
             if input_.locked:
-                blocks_str += f"{block_name}.inputs[{i}].lock()\n"
+                blocks_str += lock_to_script(f"{block_name}.inputs[{i}]", input_)
         block_names.append(block_name)
     blocks_str += f"{prefix}blocks = [{', '.join(block_names)}]\n"
     return blocks_str
@@ -80,7 +98,10 @@ def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as
         nbv_script = nbv._to_script()
         imports.extend(nbv_script.imports)
         imports_as_is.extend(nbv_script.imports_as_is)
-        nbvs_str += f"{prefix}variable_{nbv_index} = {nbv_script.declaration}\n"
+        nbv_name = f"{prefix}variable_{nbv_index}"
+        nbvs_str += f"{nbv_name} = {nbv_script.declaration}\n"
+        if nbv.locked and is_literal(nbv.default_value):
+            nbvs_str += lock_to_script(nbv_name, nbv)
     return nbvs_str
 
 
-- 
2.43.0


From 295494a1c4a92600f08609640e4579ee77d455e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 67/85] fix: names to import for Any and Optional annotations
 are those of their pretty annotations

---
 dessia_common/schemas/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 6840354..3d32d47 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -742,10 +742,9 @@ class OptionalProperty(ProxyProperty):
         """ Deserialize Optional annotation. """
         raise NotImplementedError("Optional property deserialization not implemented yet. ")
 
-    @property
-    def get_import_name(self):
-        """ Get class module and name as string."""
-        return self.schema.get_import_names([])[0]
+    def get_import_names(self, import_names):
+        """ Update the import names list with those of the proxied schema, whose annotation is the pretty one. """
+        return self.schema.get_import_names(import_names=import_names)
 
 
 class AnnotatedProperty(ProxyProperty):
@@ -1615,6 +1614,11 @@ class AnyProperty(Property):
         chunk.update({"properties": {".*": ".*"}, "type": "object"})
         return chunk
 
+    @cached_property
+    def pretty_annotation(self) -> str:
+        """ Name of the annotation, without its module. """
+        return "Any"
+
 
 class EnumProperty(TypingProperty):
     """ Generate an enum of a dict keys. """
-- 
2.43.0


From 0b0fc8820edbe685113eba48fa9d090fd7dbee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 68/85] fix: workflow scripts handle untyped variables

---
 dessia_common/workflow/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index b3236e7..292098b 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -164,10 +164,12 @@ class Variable(DessiaObject):
         return script
 
     def _get_to_script_elements(self):
-        schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
-        imports = schema.get_import_names(import_names=[])
-        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}," \
-                      f" type_={schema.pretty_annotation}"
+        imports = []
+        declaration = f"name={self.name!r}, label={self.label!r}, position={self.position}"
+        if self.type_ is not None:
+            schema = get_schema(annotation=self.type_, attribute=SchemaAttribute(self.name))
+            imports = schema.get_import_names(import_names=[])
+            declaration += f", type_={schema.pretty_annotation}"
         return ToScriptElement(declaration=declaration, imports=imports, imports_as_is=[])
 
 
-- 
2.43.0


From 42a8efd09a03fdabad71a53356727c9ea2adbee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:55 +0000
Subject: [PATCH 69/85] fix: the script of a workflow keeps its description

---
 dessia_common/workflow/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 292098b..130e17d 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -1333,7 +1333,7 @@ class Workflow(Block):
                       f"{nbvs_str}\n" \
                       f"{pipes_str}\n" \
                       f"{prefix}workflow = " \
-                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, " \
+                      f"Workflow({prefix}blocks, {prefix}pipes, output={output_name}, description={self.description!r}, " \
                       f"documentation={prefix}documentation, name={quoted(self.name)})\n"
 
         imports.append(self.full_classname)
-- 
2.43.0


From 187af400b5a8a2b0051d608f4bd439d41187dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 70/85] fix: the script of a run gives each free input its own
 value

---
 dessia_common/workflow/core.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 130e17d..9969947 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -2207,45 +2207,35 @@ class WorkflowRun(WorkflowState):
         return self.workflow.run(input_values=input_values, verbose=False,
                                  progress_callback=progress_callback, name=name)
 
-    def _split_input_values(self):
-        """ Split the input values for blocks and non-block variables. """
-        nbv_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                      v in self.workflow.nonblock_variables]
-        block_values = [self.input_values[i] for i, v in enumerate(self.workflow.inputs) if
-                        v not in self.workflow.nonblock_variables]
-        return nbv_values, block_values
-
-    def _to_script(self, workflow_script):
+    def _to_script(self):
         """ Computes elements for a to_script interpretation. """
         input_str = ""
         default_value = ""
         add_import = []
 
-        nbv_values, block_values = self._split_input_values()
+        inputs = {v: self.input_values[i] for i, v in enumerate(self.workflow.inputs) if not v.locked}
 
         # Blocks
-        index_ = 0
         for j, block in enumerate(self.workflow.blocks):
             for i, input_ in enumerate(block.inputs):
-                input_key = f"block_{j}.inputs[{i}]"
-                if input_key not in workflow_script.declaration:
-                    input_str += f"    workflow.input_index({input_key}): value_{j}_{i},\n"
-                    default_value += generate_default_value(block_values[index_], j, i)
-                    index_ += 1
+                if input_ in inputs:
+                    input_str += f"    workflow.input_index(block_{j}.inputs[{i}]): value_{j}_{i},\n"
+                    default_value += generate_default_value(inputs[input_], j, i)
                     add_import.extend(update_imports(input_.type_, input_.name))
 
         # NBVs
         for k, nbv in enumerate(self.workflow.nonblock_variables):
-            input_str += f"    workflow.input_index(variable_{k}): value_{k},\n"
-            default_value += generate_default_value(nbv_values[k], k)
-            add_import.extend(update_imports(nbv.type_, nbv.name))
+            if nbv in inputs:
+                input_str += f"    workflow.input_index(variable_{k}): value_{k},\n"
+                default_value += generate_default_value(inputs[nbv], k)
+                add_import.extend(update_imports(nbv.type_, nbv.name))
 
         return input_str, default_value, add_import
 
     def to_script(self):
         """ Computes a script representing the WorkflowRun. """
         workflow_script = self.workflow._to_script()
-        input_str, default_value, add_import = self._to_script(workflow_script)
+        input_str, default_value, add_import = self._to_script()
 
         workflow_script.declaration = f"{workflow_script.declaration}\n{default_value}\n\ninput_values =" \
                                       f" {{\n{input_str}}}\nworkflow_run = workflow.run(input_values=input_values)\n"
-- 
2.43.0


From 9e23c9c5568ba806744e2ff404216096dedcb27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:13 +0000
Subject: [PATCH 71/85] fix: the script of a run handles untyped inputs

---
 dessia_common/workflow/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index 9a4cada..a45dcfe 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -107,6 +107,8 @@ def nonblock_variables_to_script(nonblock_variables, prefix, imports, imports_as
 
 def update_imports(input_type, input_name):
     """ Update imports based on the schema of the input. """
+    if input_type is None:
+        return []
     schema = get_schema(annotation=input_type, attribute=SchemaAttribute(input_name))
     return schema.get_import_names(import_names=[])
 
-- 
2.43.0


From ed6416dd78bcc47defbf0c91a223d7faf38e1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 72/85] fix: the script of a run keeps its empty sequences

---
 dessia_common/workflow/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dessia_common/workflow/utils.py b/dessia_common/workflow/utils.py
index a45dcfe..d2e867d 100644
--- a/dessia_common/workflow/utils.py
+++ b/dessia_common/workflow/utils.py
@@ -126,7 +126,7 @@ def is_object_or_object_sequence(object_):
     if isinstance(object_, SerializableObject):
         return True
     if is_sequence(object_):
-        return all(isinstance(element, SerializableObject) for element in object_)
+        return len(object_) > 0 and all(isinstance(element, SerializableObject) for element in object_)
 
     return False
 
-- 
2.43.0


From d598d611561fae647a9692e2f38d0aeec5e36b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 73/85] fix: checking a schema reports the checks of its
 properties

---
 dessia_common/schemas/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 3d32d47..4fe4a11 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -169,10 +169,13 @@ class SchemaAttributeCollection:
         """ Concatenate schema chunks into a List. """
         return [self.chunk(a) for a in self.attributes]
 
-    def check_list(self, issues: CheckList):
+    def check_list(self) -> CheckList:
+        """ Concatenate the checks of the attributes. """
+        issues = CheckList([])
         for attribute in self.attributes:
             schema = self.property_schemas[attribute.name]
             issues += schema.check_list()
+        return issues
 
     def to_dict(self):
         return {"properties": [self.chunk(a) for a in self._attributes]}
@@ -299,7 +302,7 @@ class Schema:
         """
         issues = CheckList([])
         for step in self.steps:
-            step.check_list(issues)
+            issues += step.check_list()
         return issues
 
     @property
-- 
2.43.0


From 50360288024b795a8db51c06ed55e055868597bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 74/85] fix: mutable default values are reported

---
 dessia_common/schemas/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 4fe4a11..618904d 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1215,7 +1215,7 @@ class HomogeneousSequence(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if List doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable List input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
@@ -1297,7 +1297,7 @@ class DynamicDict(TypingProperty):
 
     def has_no_default(self) -> PassedCheck:
         """ Check if Dict doesn't define a default value that is other than None. """
-        if self.default_value() is not UNDEFINED and self.default_value() is not None:
+        if self.has_default_value and self.attribute.default_value is not None:
             msg = f"{self.check_prefix}Mutable Dict input defines a default value other than None," \
                   f"which will lead to unexpected behavior and therefore, is not supported."
             return UnsupportedDefault(msg)
-- 
2.43.0


From 0d96af9cc58d90dac803ee8d0918182ad6dd378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 75/85] fix: default values of measures keep their class, and
 can be None

---
 dessia_common/schemas/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 618904d..09706cd 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -859,15 +859,19 @@ class MeasureProperty(BuiltinProperty):
     def default_value(self):
         """ Handle measures default values defined as floats, Measure object and force a value when undefined. """
         if self.has_default_value:
-            if isinstance(self.attribute.default_value, float):
-                default_measure = Measure(self.attribute.default_value)
+            if self.attribute.default_value is None:
+                return None
+            if isinstance(self.attribute.default_value, Measure):
+                default_measure = self.attribute.default_value
+            elif isinstance(self.attribute.default_value, float):
+                default_measure = self.annotation(self.attribute.default_value)
             elif isinstance(self.attribute.default_value, dict):
-                default_measure = Measure(self.attribute.default_value["value"])
+                default_measure = self.annotation(self.attribute.default_value["value"])
             else:
                 raise ValueError(f"Default value for attribute '{self.attribute.name}' "
                                  f"must be of type 'float' or 'Measure'. Got '{type(self.attribute.default_value)}'")
             return default_measure.to_dict()
-        return {"object_class": f"{Measure.__module__}.{Measure.__class__.__name__}", "value": None}
+        return {"object_class": self.serialized, "value": None}
 
     def get_import_names(self, import_names):
         """ Process MeasureProperty and get/update the import names list."""
-- 
2.43.0


From 2609a76c04d3b8c2ea5528acbe0b7aaffc0105e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 76/85] fix: default values of tuples are serialized

---
 dessia_common/schemas/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 09706cd..4b3d74d 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1140,7 +1140,7 @@ class HeterogeneousSequence(TypingProperty):
         Return serialized user default if defined, else a right-sized Tuple filled with None values .
         """
         if self.has_default_value:
-            return self.attribute.default_value
+            return serialized_default(self.attribute.default_value)
         return tuple(s.default_value() for s in self.args_schemas)
 
     def check_list(self) -> CheckList:
@@ -1840,6 +1840,17 @@ def object_default(default_value: CoreDessiaObject = UNDEFINED, class_schema: Cl
     return None
 
 
+def serialized_default(value):
+    """ Serialize the objects and measures that a default value holds. """
+    if isinstance(value, (list, tuple)):
+        return type(value)(serialized_default(v) for v in value)
+    if isinstance(value, CoreDessiaObject):
+        return value.to_dict(use_pointers=False)
+    if isinstance(value, Measure):
+        return value.to_dict()
+    return value
+
+
 def compute_typing_schema_serialization(serialized_typing: str, args_schemas: List[Property]) -> str:
     """ Build final typing serialized string. """
     return f"{serialized_typing}[{', '.join([s.serialized for s in args_schemas])}]"
-- 
2.43.0


From 2eac99d1b1db4c8df34a821140a37bffefef3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 77/85] fix: optional arguments have the default value, checks
 and standalone status of the annotation they wrap

---
 dessia_common/schemas/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index 4b3d74d..b93c505 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -723,6 +723,19 @@ class ProxyProperty(TypingProperty):
         """ Stringify under-proxy-annotation. """
         return self.schema.pretty_annotation
 
+    @property
+    def standalone_in_db(self) -> bool:
+        """ Whether the annotation under proxy is standalone. """
+        return self.schema.standalone_in_db
+
+    def default_value(self):
+        """ Default value of the annotation under proxy. """
+        return self.schema.default_value()
+
+    def check_list(self) -> CheckList:
+        """ Check validity of the annotation under proxy. """
+        return self.schema.check_list()
+
     @classmethod
     def annotation_from_serialized(cls, serialized: str) -> Type[T]:
         """ Deserialize Proxy annotation. """
-- 
2.43.0


From c1f0b646fd6a613c035c88bbdf19a4a65010de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 78/85] fix: attribute and class arguments can default to None

---
 dessia_common/schemas/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dessia_common/schemas/core.py b/dessia_common/schemas/core.py
index b93c505..23f1ce4 100644
--- a/dessia_common/schemas/core.py
+++ b/dessia_common/schemas/core.py
@@ -1469,6 +1469,8 @@ class AttributeTypeProperty(TypingProperty):
     def default_value(self) -> Dict[str, Any]:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return self.attribute.default_value.to_dict()
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
@@ -1579,6 +1581,8 @@ class ClassProperty(TypingProperty):
     def default_value(self) -> str:
         """ Sets AttributeType object_class and argument class_ if it is different from Type. """
         if self.has_default_value:
+            if self.attribute.default_value is None:
+                return None
             return full_classname(self.attribute.default_value, compute_for="class")
 
         if self.class_ is not Type and issubclass(self.class_, CoreDessiaObject):
-- 
2.43.0


From 23819a2397cfb313a39c8e5cb24760f5a03bdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:57 +0000
Subject: [PATCH 79/85] fix: the form of a workflow keeps the ids of its steps

---
 dessia_common/workflow/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/workflow/core.py b/dessia_common/workflow/core.py
index 9969947..cd04daa 100644
--- a/dessia_common/workflow/core.py
+++ b/dessia_common/workflow/core.py
@@ -752,7 +752,8 @@ class Workflow(Block):
                                                        name=step.group_id, title=group_name))
             steps.append(SchemaStep(annotations=annotations, attributes=attributes, label=step.label,
                                     display_setting=step.display_setting, documentation=step.documentation,
-                                    display_variable=step.display_variable_index))
+                                    display_variable=step.display_variable_index, group_id=step.group_id,
+                                    id_=step.id_))
 
         spare_annotations = self.input_annotations(self.spare_inputs)
         spare_attributes = [self.input_schema(input_=i) for i in self.spare_inputs]
-- 
2.43.0


From a895feddbebacda2ffd6bbfd446ed3ea982e8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:29 +0000
Subject: [PATCH 80/85] fix: copies keep keyword-only attributes

---
 dessia_common/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dessia_common/core.py b/dessia_common/core.py
index a5b9685..3d1590e 100644
--- a/dessia_common/core.py
+++ b/dessia_common/core.py
@@ -336,7 +336,7 @@ class DessiaObject(SerializableObject):
             _fullargsspec_cache[class_name] = class_argspec
 
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 value = self.__dict__[arg]
                 if hasattr(value, '__copy__'):
@@ -357,7 +357,7 @@ class DessiaObject(SerializableObject):
         if memo is None:
             memo = {}
         dict_ = {}
-        for arg in class_argspec.args:
+        for arg in class_argspec.args + class_argspec.kwonlyargs:
             if arg != 'self':
                 dict_[arg] = deepcopy_value(getattr(self, arg), memo=memo)
         return self.__class__(**dict_)
-- 
2.43.0


From 592ed8d874c33168cd396fc6b0e5223b7a7315bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 81/85] fix: paths keep the keys that start with the root
 marker

---
 dessia_common/utils/helpers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dessia_common/utils/helpers.py b/dessia_common/utils/helpers.py
index 280b964..6b77dee 100644
--- a/dessia_common/utils/helpers.py
+++ b/dessia_common/utils/helpers.py
@@ -155,9 +155,18 @@ def evaluate_pointer(object_, element):
     return element
 
 
+def path_segments(path: str):
+    """ Split a path into its segments. Only the root marker is removed, as keys may start with '#'. """
+    for root in ['#/', '#', '/']:
+        if path.startswith(root):
+            path = path[len(root):]
+            break
+    return path.split('/')
+
+
 def get_in_object_from_path(object_, path, evaluate_pointers=True):
     """ Get deep attributes from an object. Argument 'path' represents path to deep attribute. """
-    segments = path.lstrip('#/').split('/')
+    segments = path_segments(path)
     element = object_
     for segment in segments:
         if isinstance(element, dict) and evaluate_pointers:
@@ -180,9 +189,9 @@ def get_in_object_from_path(object_, path, evaluate_pointers=True):
 
 def set_in_object_from_path(object_, path, value, evaluate_pointers=True):
     """ Set deep attribute from an object to the given value. Argument 'path' represents path to deep attribute. """
-    reduced_path = '/'.join(path.lstrip('#/').split('/')[:-1])
-    last_segment = path.split('/')[-1]
-    if reduced_path:
+    *reduced_segments, last_segment = path_segments(path)
+    if reduced_segments:
+        reduced_path = f"#/{'/'.join(reduced_segments)}"
         last_object = get_in_object_from_path(object_, reduced_path, evaluate_pointers=evaluate_pointers)
     else:
         last_object = object_
-- 
2.43.0


From 750e3753ca68ba5be461997ba8ede1d6a06a3eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 82/85] fix: spreadsheet links only lead to existing sheets

---
 dessia_common/exports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dessia_common/exports.py b/dessia_common/exports.py
index e76947d..35178e9 100644
--- a/dessia_common/exports.py
+++ b/dessia_common/exports.py
@@ -129,10 +129,11 @@ class XLSXWriter:
         """ Compute the hyperlink for given value."""
         cell_link = None
         if value:
-            if isinstance(value, dict):
-                cell_link = f'#{list(value.values())[0].__class__.__name__}!A2'
-            elif isinstance(value, (list, set)) and not is_builtins_list(value):
-                cell_link = f'#{value[0].__class__.__name__}!A2'
+            if isinstance(value, (dict, list, set)):
+                elements = value.values() if isinstance(value, dict) else value
+                class_name = next(iter(elements)).__class__.__name__
+                if class_name in self.classes_to_sheets:
+                    cell_link = f'#{class_name}!A2'
             elif is_hashable(value) and value in self.object_to_sheet_row:
                 ref_sheet, ref_row_number, _ = self.object_to_sheet_row[value]
                 cell_link = f'#{ref_sheet.title}!A{ref_row_number+2}'
-- 
2.43.0


From 3e973bc6bbc8cfaa8cf428ed2e63188ac5a50324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 83/85] fix: spreadsheet readers follow links to their row, and
 dictionaries of objects

---
 dessia_common/excel_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dessia_common/excel_reader.py b/dessia_common/excel_reader.py
index 97e3cad..aed5380 100644
--- a/dessia_common/excel_reader.py
+++ b/dessia_common/excel_reader.py
@@ -152,7 +152,7 @@ class ExcelReader:
         dict_keys = []
         if "Dict" in cell.value:
             actual_value = {}
-            sheet = self.workbook[target]
+            sheet = self.workbook[target[0]]
             column = sheet["A"]
             for row in column[3:]:
                 dict_keys.append(row.value.split('.')[1])
@@ -163,7 +163,8 @@ class ExcelReader:
             return actual_value
 
         if isinstance(values, list) and (not any(type_ in cell.value for type_ in container)):
-            actual_value = values[0]
+            row = int(target[1].strip("$ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
+            actual_value = values[row - 4] if 4 <= row < len(values) + 4 else values[0]
         else:
             actual_value = values
         return actual_value
-- 
2.43.0


From 7dfbe2a79262bbcee34fbab4dffcf895e6ef1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:29 +0000
Subject: [PATCH 84/85] fix: parallel plots show every common attribute

---
 dessia_common/datatools/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dessia_common/datatools/dataset.py b/dessia_common/datatools/dataset.py
index 4691614..879c1ad 100644
--- a/dessia_common/datatools/dataset.py
+++ b/dessia_common/datatools/dataset.py
@@ -697,7 +697,8 @@ class Dataset(DessiaObject):
         # TODO: Put it in plot_data
         (sorted_r2, sorted_association), constant_attributes = self._get_correlations()
         attribute_series = self._get_attribute_trios(sorted_r2, sorted_association)
-        return constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        axes = constant_attributes + self._trios_list_to_parallel_axes(attribute_series)
+        return axes + [attr for attr in self.common_attributes if attr not in axes]
 
     def _get_correlations(self):
         r2_scores = []
-- 
2.43.0


From d8bdf69138f59593098d665e5ae1471caf17b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:29 +0000
Subject: [PATCH 85/85] fix: each point of a clustered plot is in the family of
 its label

---
 dessia_common/datatools/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dessia_common/datatools/cluster.py b/dessia_common/datatools/cluster.py
index b58aa49..868b632 100644
--- a/dessia_common/datatools/cluster.py
+++ b/dessia_common/datatools/cluster.py
@@ -309,12 +309,12 @@ class ClusteredDataset(Dataset):
         return sample
 
     def _point_families(self):
-        colormap = plt.cm.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
+        colormap = plt.get_cmap('hsv', self.n_clusters + 1)(range(self.n_clusters + 1))
         point_families = []
-        for i_cluster in range(self.n_clusters):
+        for i_cluster, label in enumerate(sorted(set(self.labels) - {-1})):
             color = Color(colormap[i_cluster][0], colormap[i_cluster][1], colormap[i_cluster][2])
-            points_index = list(map(int, npy.where(npy.array(self.labels) == i_cluster)[0].tolist()))
-            point_families.append(PointFamily(color, points_index, name="Cluster " + str(i_cluster)))
+            points_index = list(map(int, npy.where(npy.array(self.labels) == label)[0].tolist()))
+            point_families.append(PointFamily(color, points_index, name="Cluster " + str(label)))
 
         if -1 in self.labels:
             color = LIGHTGREY
-- 
2.43.0

