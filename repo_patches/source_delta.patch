From c7a1c5881e8b0a068f9f9eee64fc4212bf5d723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 01/30] fix: apply the array index grammar to JSON arrays in
 JSONPointer.evaluate

---
 jschon/jsonpointer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..d8e6586 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,13 +207,13 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                        not isjson and isinstance(value, Sequence) and
+                        not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-            except (KeyError, IndexError):
+            except (KeyError, IndexError, ValueError):
                 pass
 
             raise self.reference_exc(f"Path '{self}' not found in document")
-- 
2.43.0


From 6ecc41b357a193566832d95bf8a1db265fd7f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 02/30] fix: reject scalar parents and malformed array indices
 in patch operations

---
 jschon/json.py        |  9 +++------
 jschon/jsonpatch.py   | 14 +++++++-------
 jschon/jsonpointer.py | 10 ++++++++++
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..a4a10d0 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -7,7 +7,7 @@ from os import PathLike
 from typing import Any, Dict, Iterator, List, Mapping, MutableMapping, MutableSequence, Optional, Sequence, Type, Union
 
 from jschon.exc import JSONError, JSONPointerError
-from jschon.jsonpointer import JSONPointer
+from jschon.jsonpointer import JSONPointer, parse_index
 from jschon.utils import json_dumpf, json_dumps, json_loadf, json_loadr, json_loads
 
 __all__ = [
@@ -356,11 +356,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
-                if target_key == '-' or int(target_key) == len(target_parent):
-                    target_index = len(target_parent)
-                elif 0 <= int(target_key) < len(target_parent):
-                    target_index = int(target_key)
-                else:
+                target_index = len(target_parent) if target_key == '-' else parse_index(target_key)
+                if target_index > len(target_parent):
                     raise ValueError
             except ValueError:
                 raise JSONError(f'Invalid array index {target_key}')
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..c24ba5c 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -6,7 +6,7 @@ from typing import Dict, Iterable, List, Mapping, MutableSequence, Optional, Seq
 
 from jschon.exc import JSONPatchError, JSONPointerError
 from jschon.json import JSON, JSONCompatible
-from jschon.jsonpointer import JSONPointer
+from jschon.jsonpointer import JSONPointer, parse_index
 
 __all__ = [
     'JSONPatch',
@@ -205,16 +205,16 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
-                if key == '-' or int(key) == len(parent):
+                index = len(parent) if key == '-' else parse_index(key)
+                if index == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
-                    self.index = len(parent)
-                elif 0 <= int(key) < len(parent):
+                elif index < len(parent):
                     self.type = NodeType.ARRAY_ITEM
-                    self.index = int(key)
                 else:
                     raise ValueError
+                self.index = index
             except ValueError:
                 raise JSONPatchError(f'Invalid array index {key}')
 
@@ -224,7 +224,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index d8e6586..7d437c2 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -32,6 +32,16 @@ RELATIVE_JSON_POINTER_RE = (
 )
 
 
+def parse_index(key: str) -> int:
+    """Return the array index represented by `key`.
+
+    :raise ValueError: if `key` is not an :rfc:`6901` array index
+    """
+    if not re.fullmatch(JSON_INDEX_RE, key):
+        raise ValueError(f"'{key}' is not a valid array index")
+    return int(key)
+
+
 class JSONPointer(Sequence[str]):
     """:rfc:`6901`-conformant JSON Pointer implementation.
 
-- 
2.43.0


From afaaa4ca7875356e75d6cd7973ce17dc01c1742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 03/30] fix: reject a patch move into the moved value's own
 child

---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index c24ba5c..66a2f5b 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -296,6 +296,9 @@ def move(
     except JSONPointerError as e:
         raise JSONPatchError(f'Cannot move from nonexistent location {from_}') from e
 
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} into its own child {path}')
+
     document = remove(document, from_)
     return add(document, path, value)
 
-- 
2.43.0


From edb161ccee5d16717dec3e144c0c10a2d6debacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 04/30] fix: evaluate a patch on a copy whose places share no
 containers

---
 jschon/jsonpatch.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 66a2f5b..436fb95 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from copy import deepcopy
 from enum import Enum
 from typing import Dict, Iterable, List, Mapping, MutableSequence, Optional, Sequence, Union, overload
 
@@ -124,7 +123,7 @@ class JSONPatch(MutableSequence[JSONPatchOperation]):
     def evaluate(self, document: JSONCompatible) -> JSONCompatible:
         """Return the result of sequentially applying all patch operations
         to `document`, as a new document. `document` itself is not modified."""
-        result = deepcopy(document)
+        result = clone(document)
         for operation in self._operations:
             result = operation.apply(result)
         return result
@@ -191,6 +190,15 @@ class NodeType(Enum):
     OBJECT_PROPERTY_NEW = 4
 
 
+def clone(value: JSONCompatible) -> JSONCompatible:
+    """Return a copy of `value` in which no two places share a container."""
+    if isinstance(value, Mapping):
+        return {k: clone(v) for k, v in value.items()}
+    if isinstance(value, Sequence) and not isinstance(value, str):
+        return [clone(v) for v in value]
+    return value
+
+
 class Node:
     def __init__(self, document: JSONCompatible, path: JSONPointer):
         if not path:
@@ -234,7 +242,7 @@ def add(
 ) -> JSONCompatible:
     """Add `value` to `document` at `path`."""
     target = Node(document, path)
-    value = deepcopy(value)
+    value = clone(value)
     if target.type == NodeType.ROOT:
         return value
 
@@ -272,7 +280,7 @@ def replace(
 ) -> JSONCompatible:
     """Replace the value at `path` in `document` with `value`."""
     target = Node(document, path)
-    value = deepcopy(value)
+    value = clone(value)
     if target.type == NodeType.ROOT:
         return value
 
-- 
2.43.0


From e3a82ad7e04ef6716773be3e01151292fde73f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 05/30] fix: keep array item keys right for negative and
 out-of-range indices

---
 jschon/json.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index a4a10d0..5edd05c 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +253,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +267,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        if self.type == 'array':
+            index = slice(index, None).indices(len(self.data))[0]
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From 7560f4975a21f8866a64f4a8649ecb1c5a05a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 06/30] fix: leave a node intact when a replacement value is
 not JSON-compatible

---
 jschon/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 5edd05c..9fe96f4 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -134,18 +134,18 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             self.data = value
 
         elif isinstance(value, Sequence):
-            self.type = "array"
             self.data = [
                 self.itemclass(v, parent=self, key=str(i), **self.itemkwargs)
                 for i, v in enumerate(value)
             ]
+            self.type = "array"
 
         elif isinstance(value, Mapping):
-            self.type = "object"
             self.data = {
                 k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                 for k, v in value.items()
             }
+            self.type = "object"
 
         else:
             raise TypeError(f"{value=} is not JSON-compatible")
-- 
2.43.0


From 6446d90d0403bf0513f475ff0f6d3f64c4a8655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 07/30] fix: read and write JSON files as UTF-8 whatever the
 locale

---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From 4be1b974028294daf2d2e64ae7cc94421581e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 08/30] fix: refuse numbers that would load as infinity

---
 jschon/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index b1b3ea6..0468c2c 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -1,4 +1,5 @@
 import json
+import math
 from os import PathLike
 from typing import Any, Tuple, Iterable, Union
 
@@ -46,7 +47,7 @@ def json_dumps(obj: Any) -> str:
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
     with open(path, encoding='utf-8') as f:
-        return json.load(f, parse_constant=_parse_invalid_const)
+        return json.load(f, parse_constant=_parse_invalid_const, parse_float=_parse_finite_float)
 
 
 def json_loadr(url: str) -> Any:
@@ -55,12 +56,12 @@ def json_loadr(url: str) -> Any:
         _import_requests()
     r = requests.get(url)
     r.raise_for_status()
-    return r.json(parse_constant=_parse_invalid_const)
+    return r.json(parse_constant=_parse_invalid_const, parse_float=_parse_finite_float)
 
 
 def json_loads(value: str) -> Any:
     """Deserialize a JSON string, returning a JSON-compatible Python object."""
-    return json.loads(value, parse_constant=_parse_invalid_const)
+    return json.loads(value, parse_constant=_parse_invalid_const, parse_float=_parse_finite_float)
 
 
 def _parse_invalid_const(c):
@@ -70,6 +71,13 @@ def _parse_invalid_const(c):
     raise ValueError(f"{c} is not a valid JSON value")
 
 
+def _parse_finite_float(s):
+    """Refuse a number whose magnitude exceeds that of any finite float."""
+    if math.isinf(f := float(s)):
+        raise ValueError(f"{s} is out of range")
+    return f
+
+
 def _serialize_custom_obj(o):
     from jschon.json import JSON
     if isinstance(o, JSON):
-- 
2.43.0


From 788ebc4267d5eec037648a1a3d90b030920933c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 09/30] fix: hash URIs by the normalised form their equality
 uses

---
 jschon/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..ae7b0eb 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,7 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From cac1739d61709df61431deab89b3282b82eea7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 10/30] fix: drop the annotations of a subschema whose failure
 is reversed

---
 jschon/jsonschema.py | 30 ++++++++++++++++++++++++------
 jschon/output.py     |  8 ++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..af047d2 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -210,12 +210,14 @@ class JSONSchema(JSON):
                     with result(instance, key, self) as subresult:
                         keyword.evaluate(instance, subresult)
 
-            if any(
-                    not child.passed
-                    for child in result.children.values()
-                    if child.instance.path == instance.path
-            ):
+            subresults = [
+                child for child in result.children.values()
+                if child.instance.path == instance.path
+            ]
+            if any(not child.passed for child in subresults):
                 result.fail()
+                for child in subresults:
+                    child.drop()
 
         return result
 
@@ -386,6 +388,7 @@ class Result:
         self._valid = True
         self._assert = True
         self._discard = False
+        self._dropped = False
         self._refschema: Optional[JSONSchema] = None
 
         if parent is None:
@@ -474,6 +477,14 @@ class Result:
         """Indicate that the result should be ignored and discarded."""
         self._discard = True
 
+    def drop(self) -> None:
+        """Indicate that any annotations in this subtree must be dropped.
+
+        A schema that fails contributes no annotations, even where its
+        failure is reversed by a keyword such as ``not``.
+        """
+        self._dropped = True
+
     def refschema(self, schema: JSONSchema) -> None:
         """Set the referenced schema for a by-reference keyword.
         
@@ -499,6 +510,13 @@ class Result:
         """
         return self._valid or not self._assert
 
+    @property
+    def dropped(self) -> bool:
+        """Return True if the result belongs to the evaluation of
+        a (sub)schema that failed, so that any annotations in this
+        subtree do not count."""
+        return self._dropped
+
     @property
     def absolute_uri(self) -> Optional[URI]:
         """Return the absolute URI of the current schema node."""
@@ -515,7 +533,7 @@ class Result:
     def collect_annotations(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over annotations produced in this subtree,
         optionally filtered by instance and/or keyword."""
-        if self._valid and not self._discard:
+        if self._valid and not self._discard and not self._dropped:
             if self.annotation is not None and \
                     (key is None or key == self.key) and \
                     (instance is None or instance.path == self.instance.path):
diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..c812bb0 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -46,7 +46,7 @@ def flag(result: Result) -> JSONCompatible:
 @output_formatter('basic')
 def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     def visit(node: Result):
-        if node.valid is valid:
+        if node.valid is valid and not (valid and node.dropped):
             if (
                     (annotations is None or node.key in annotations) and
                     (msgval := getattr(node, msgkey)) is not None
@@ -78,7 +78,7 @@ def detailed(result: Result) -> JSONCompatible:
             "keywordLocation": str(node.path),
             "absoluteKeywordLocation": str(node.absolute_uri),
             childkey: [visit(child) for child in node.children.values()
-                       if child.valid is valid],
+                       if child.valid is valid and not (valid and child.dropped)],
         }
         if not output[childkey]:
             del output[childkey]
@@ -142,9 +142,9 @@ def hierarchical(result: Result) -> JSONCompatible:
             for child in node.children.values():
                 details += [
                     childout for childout in (visit(child))
-                    if child.valid == valid
+                    if child.valid == valid and not (valid and child.dropped)
                 ]
-                if valid and child.annotation is not None:
+                if valid and child.annotation is not None and not child.dropped:
                     annotations[child.key] = child.annotation
                 elif not valid and child.error is not None:
                     errors[child.key] = child.error
-- 
2.43.0


From 2eea3a955811c1d3390dbda717e0216509e33023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 11/30] fix: decide multipleOf exactly for quotients of any
 size

---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..4f20adb 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except ZeroDivisionError:
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From 1e6ec0832913dabe6b238f509b85df21189d2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:33 +0000
Subject: [PATCH 12/30] fix: evaluate 2019-09 items schemas one item at a time

---
 jschon/vocabulary/legacy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..c01d184 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -61,14 +61,17 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
         if len(instance) == 0:
             return
 
-        elif isinstance(self.json.data, bool):
-            self.json.evaluate(instance, result)
-
         elif isinstance(self.json, JSONSchema):
+            error = []
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    error += [index]
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if error:
+                result.fail(error)
+            else:
                 result.annotate(True)
 
         elif self.json.type == "array":
-- 
2.43.0


From 3eabab38e8a6893e7894313fef7f4036717969b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 13/30] fix: accept any string as the name of an unknown
 keyword

---
 jschon/vocabulary/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..5882769 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -99,8 +99,10 @@ class Metaschema(JSONSchema):
         try:
             return self.kwclasses[key]
         except KeyError:
+            # only use names that a class may have: any string may be a keyword
+            suffix = key[0].upper() + key[1:] if key.isidentifier() else ''
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                f'UnknownKeyword{suffix}',
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From f3bf47dc79c1e9710f6e55bdf9aa96be075ae34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 14/30] fix: bind a dynamic reference to the outermost entry of
 a resource

---
 jschon/vocabulary/core.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..8d00891 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -147,21 +147,26 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
+            found_schemas = {}
 
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
+                if (base_uri := target.schema.base_uri) is not None:
+                    if base_uri not in found_schemas:
+                        found_schemas[base_uri] = None
+                        target_uri = URI(f"#{self.fragment}").resolve(base_uri)
+                        try:
+                            found_schema = self.parentschema.catalog.get_schema(
+                                target_uri, cacheid=self.parentschema.cacheid
+                            )
+                            if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
+                                    dynamic_anchor.data == self.fragment:
+                                found_schemas[base_uri] = found_schema
+                        except CatalogError:
+                            pass
+
+                    # a resource may be entered more than once: the outermost entry counts
+                    if (found_schema := found_schemas[base_uri]) is not None:
+                        refschema = found_schema
 
                 target = target.parent
 
-- 
2.43.0


From 8a5ff43bb56fcaeada7e2df780c3d375f2dc2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 15/30] fix: let a dynamic reference target a boolean schema

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 8d00891..f7370c2 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -139,7 +139,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if self.refschema.type == "object" and \
+                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From 68864593a514e859c8be6d974664a7f4786e5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 16/30] fix: accept any iterable of names as the basic output
 filter

---
 jschon/output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/output.py b/jschon/output.py
index c812bb0..6b81a70 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -60,6 +60,9 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
             for child in node.children.values():
                 yield from visit(child)
 
+    if annotations is not None:
+        annotations = list(annotations)  # may be iterable only once
+
     valid = result.valid
     msgkey = "annotation" if valid else "error"
     childkey = "annotations" if valid else "errors"
-- 
2.43.0


From 58e02ff66832b45deef168faeaaed62d38078581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 17/30] fix: find dynamic anchors in the schemas themselves,
 not in the cache

---
 jschon/jsonschema.py      |  4 ++++
 jschon/vocabulary/core.py | 25 +++++--------------------
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index af047d2..ffa0dd9 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -71,6 +71,10 @@ class JSONSchema(JSON):
         """A dictionary of the schema's :class:`~jschon.vocabulary.Keyword`
         objects, indexed by keyword name."""
 
+        self.dynamic_anchors: Dict[str, JSONSchema] = {}
+        """A dictionary of the schemas in this resource that have a ``"$dynamicAnchor"``,
+        indexed by anchor name; only filled at the root of a resource."""
+
         # do not call super().__init__
         # all inherited attributes are initialized here:
 
diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index f7370c2..ab46624 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -148,27 +148,9 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            found_schemas = {}
-
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None:
-                    if base_uri not in found_schemas:
-                        found_schemas[base_uri] = None
-                        target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                        try:
-                            found_schema = self.parentschema.catalog.get_schema(
-                                target_uri, cacheid=self.parentschema.cacheid
-                            )
-                            if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                    dynamic_anchor.data == self.fragment:
-                                found_schemas[base_uri] = found_schema
-                        except CatalogError:
-                            pass
-
-                    # a resource may be entered more than once: the outermost entry counts
-                    if (found_schema := found_schemas[base_uri]) is not None:
-                        refschema = found_schema
-
+                # the outermost resource counts, whatever is cached now
+                refschema = target.schema.resource_rootschema.dynamic_anchors.get(self.fragment, refschema)
                 target = target.parent
 
         refschema.evaluate(instance, result)
@@ -189,6 +171,9 @@ class DynamicAnchorKeyword(Keyword):
 
         parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)
 
+    def resolve(self) -> None:
+        self.parentschema.resource_rootschema.dynamic_anchors[self.json.data] = self.parentschema
+
 
 class DefsKeyword(Keyword, ObjectOfSubschemas):
     key = "$defs"
-- 
2.43.0


From e94f4ea7ab1327527f4ba073808c840ac07487c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 18/30] fix: ignore an enabled format that has no validator

---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 2921183..1dca2b4 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -17,7 +17,7 @@ class FormatKeyword(Keyword):
     def __init__(self, parentschema: JSONSchema, value: str):
         super().__init__(parentschema, value)
         if parentschema.catalog.is_format_enabled(value):
-            self.validator, self.validates_types = _format_validators[value]
+            self.validator, self.validates_types = _format_validators.get(value, (None, ()))
         else:
             self.validator = None
 
-- 
2.43.0


From ba3133a90f50735fd1b0d27ca7ddddada06e8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 19/30] fix: pass format validators plain values, also of
 arrays and objects

---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 1dca2b4..9b1edc6 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -25,7 +25,7 @@ class FormatKeyword(Keyword):
         result.annotate(self.json.value)
         if self.validator and instance.type in self.validates_types:
             try:
-                self.validator(instance.data)
+                self.validator(instance.value)
             except ValueError as e:
                 result.fail(f'The instance is invalid against the "{self.json.data}" format: {e}')
         else:
-- 
2.43.0


From 16b8512d97071832249cd75d88522c4cc8965f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 20/30] fix: keep a local source within its base directory

A relative path that began with a slash was taken for an absolute file path,
and an empty one got the suffix appended to the name of the base directory.
---
 jschon/catalog/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..ab895e2 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -37,10 +37,8 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path
-        if self.suffix:
-            filepath = str(filepath)
-            filepath += self.suffix
+        # a relative path may begin with a slash, or be empty
+        filepath = str(pathlib.Path(self.base_dir) / f'./{relative_path}{self.suffix or ""}')
 
         try:
             return json_loadf(filepath)
-- 
2.43.0


From fed55016da98d68fe9c3b92c5a48c34d1004e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 21/30] fix: keep a remote source below its base URL

A relative path that began with one slash or two was resolved against the
root of the host, or against another host.
---
 jschon/catalog/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index ab895e2..5378b8e 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -58,6 +58,9 @@ class RemoteSource(Source):
         self.base_url = base_url
 
     def __call__(self, relative_path: str) -> JSONCompatible:
+        if relative_path.startswith('/'):
+            # a relative path, which must not lead away from the base URL
+            relative_path = f'./{relative_path}'
         url = str(URI(relative_path).resolve(self.base_url))
         if self.suffix:
             url += self.suffix
-- 
2.43.0


From 7c2686c74b0bcde61bc1267e93f7b3abe926ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 22/30] fix: detect that a temporary cache is in use while it
 is still empty

An inner context with the same identifier removed the cache of the outer one.
---
 jschon/catalog/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 5378b8e..e8bff57 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -386,6 +386,7 @@ class Catalog:
         if cacheid in self._schema_cache:
             raise CatalogError("cache identifier is already in use")
 
+        self._schema_cache[cacheid] = {}
         try:
             yield cacheid
         finally:
-- 
2.43.0


From 2eb68a08202de47c0583da1a6f87700c04315fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 23/30] fix: let a schema that changes its URI only remove its
 own cache entry

The entry under its former URI may by then be another schema's.
---
 jschon/catalog/__init__.py | 16 ++++++++++++++++
 jschon/jsonschema.py       |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index e8bff57..58d1b2b 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -311,6 +311,22 @@ class Catalog:
         if cacheid in self._schema_cache:
             self._schema_cache[cacheid].pop(uri, None)
 
+    def has_schema(
+            self,
+            uri: URI,
+            schema: JSONSchema,
+            *,
+            cacheid: Hashable = 'default',
+    ) -> bool:
+        """Return True if `schema` itself is what a cache holds for `uri`,
+        False otherwise.
+
+        :param uri: the URI identifying the (sub)schema
+        :param schema: the :class:`~jschon.jsonschema.JSONSchema` instance
+        :param cacheid: schema cache identifier
+        """
+        return self._schema_cache.get(cacheid, {}).get(uri) is schema
+
     def get_schema(
             self,
             uri: URI,
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index ffa0dd9..fbf9be2 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -313,7 +313,7 @@ class JSONSchema(JSON):
     @uri.setter
     def uri(self, value: Optional[URI]) -> None:
         if self._uri != value:
-            if self._uri is not None:
+            if self._uri is not None and self.catalog.has_schema(self._uri, self, cacheid=self.cacheid):
                 self.catalog.del_schema(self._uri, cacheid=self.cacheid)
 
             self._uri = value
-- 
2.43.0


From 45dae68becf3fab3e980af9a155df5bf37cf29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 24/30] fix: leave the schema cache as it was when a document
 cannot be built

A later lookup found the incomplete schema, or accepted a metaschema that
had been rejected.
---
 jschon/catalog/__init__.py | 55 +++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 58d1b2b..9146950 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -223,19 +223,20 @@ class Catalog:
             self.get_vocabulary(vocab_uri)
             for vocab_uri in default_vocabulary_uris
         ]
-        metaschema = Metaschema(
-            self,
-            metaschema_doc,
-            default_core_vocabulary,
-            *default_vocabularies,
-            **kwargs,
-            uri=uri,
-        )
-        if not metaschema.validate().valid:
-            raise CatalogError(
-                "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+        with self._restore_on_error('__meta__'):
+            metaschema = Metaschema(
+                self,
+                metaschema_doc,
+                default_core_vocabulary,
+                *default_vocabularies,
+                **kwargs,
+                uri=uri,
             )
+            if not metaschema.validate().valid:
+                raise CatalogError(
+                    "The metaschema is invalid against its own metaschema "
+                    f'"{metaschema_doc["$schema"]}"'
+                )
         return metaschema
 
     def get_metaschema(self, uri: URI) -> Metaschema:
@@ -360,13 +361,14 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
-            schema = JSONSchema(
-                doc,
-                catalog=self,
-                cacheid=cacheid,
-                uri=base_uri,
-                metaschema_uri=metaschema_uri,
-            )
+            with self._restore_on_error(cacheid):
+                schema = JSONSchema(
+                    doc,
+                    catalog=self,
+                    cacheid=cacheid,
+                    uri=base_uri,
+                    metaschema_uri=metaschema_uri,
+                )
             try:
                 return self._schema_cache[cacheid][uri]
             except KeyError:
@@ -384,6 +386,21 @@ class Catalog:
 
         return schema
 
+    @contextmanager
+    def _restore_on_error(self, cacheid: Hashable) -> ContextManager[None]:
+        """Context manager that leaves a schema cache as it was if its
+        body fails, so that no incomplete schemas are found there later."""
+        schemas = self._schema_cache.get(cacheid)
+        saved = None if schemas is None else dict(schemas)
+        try:
+            yield
+        except BaseException:
+            if saved is None:
+                self._schema_cache.pop(cacheid, None)
+            else:
+                self._schema_cache[cacheid] = saved
+            raise
+
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
         """Context manager for a schema cache.
-- 
2.43.0


From f97ea886fa79d0a7e8ac34fd2bc8bcad53a2584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 25/30] fix: keep a loaded document cached under the URI it was
 loaded from

A document whose "$id" differs from that URI was loaded again on each lookup,
and without end when it referred to itself.
---
 jschon/catalog/__init__.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 9146950..661f783 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -5,7 +5,7 @@ import uuid
 from contextlib import contextmanager
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Set, Tuple, Union
 
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
@@ -94,6 +94,7 @@ class Catalog:
         self._uri_sources: Dict[str, Source] = {}
         self._vocabularies: Dict[URI, Vocabulary] = {}
         self._schema_cache: Dict[Hashable, Dict[URI, JSONSchema]] = {}
+        self._retained: Set[Tuple[Hashable, URI]] = set()
         self._enabled_formats: Set[str] = set()
 
     def __repr__(self) -> str:
@@ -223,7 +224,7 @@ class Catalog:
             self.get_vocabulary(vocab_uri)
             for vocab_uri in default_vocabulary_uris
         ]
-        with self._restore_on_error('__meta__'):
+        with self._loading('__meta__', uri):
             metaschema = Metaschema(
                 self,
                 metaschema_doc,
@@ -309,7 +310,7 @@ class Catalog:
         :param uri: the URI identifying the (sub)schema
         :param cacheid: schema cache identifier
         """
-        if cacheid in self._schema_cache:
+        if cacheid in self._schema_cache and (cacheid, uri) not in self._retained:
             self._schema_cache[cacheid].pop(uri, None)
 
     def has_schema(
@@ -361,7 +362,7 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
-            with self._restore_on_error(cacheid):
+            with self._loading(cacheid, base_uri):
                 schema = JSONSchema(
                     doc,
                     catalog=self,
@@ -387,11 +388,16 @@ class Catalog:
         return schema
 
     @contextmanager
-    def _restore_on_error(self, cacheid: Hashable) -> ContextManager[None]:
-        """Context manager that leaves a schema cache as it was if its
-        body fails, so that no incomplete schemas are found there later."""
+    def _loading(self, cacheid: Hashable, uri: URI) -> ContextManager[None]:
+        """Context manager for building a document loaded from `uri`.
+
+        The document remains cached for `uri`, even if it has another ``"$id"``,
+        so that it is not loaded again. The cache is left as it was if the body
+        fails, so that no incomplete schemas are found there later.
+        """
         schemas = self._schema_cache.get(cacheid)
         saved = None if schemas is None else dict(schemas)
+        self._retained.add((cacheid, uri))
         try:
             yield
         except BaseException:
@@ -400,6 +406,8 @@ class Catalog:
             else:
                 self._schema_cache[cacheid] = saved
             raise
+        finally:
+            self._retained.discard((cacheid, uri))
 
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
-- 
2.43.0


From fbf8518abb07b03252a3ca14b63a3c647a0d517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 26/30] fix: find a metaschema in the cache while it is still
 being built

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 661f783..a06bd7a 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -259,7 +259,7 @@ class Catalog:
         except KeyError:
             metaschema = None
 
-        if not metaschema:
+        if metaschema is None:
             metaschema = self.create_metaschema(uri)
 
         if not isinstance(metaschema, Metaschema):
-- 
2.43.0


From 74aa62958c1eb7d19864009092a249e0dfd77857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 27/30] fix: report an invalid metaschema that does not declare
 its own metaschema

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index a06bd7a..01383a2 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -236,7 +236,7 @@ class Catalog:
             if not metaschema.validate().valid:
                 raise CatalogError(
                     "The metaschema is invalid against its own metaschema "
-                    f'"{metaschema_doc["$schema"]}"'
+                    f'"{metaschema.metaschema_uri}"'
                 )
         return metaschema
 
-- 
2.43.0


From 6528ed5e51a28e26bc0d96c3edbbd129ad925a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 28/30] fix: ignore a contains keyword that is unknown to the
 metaschema

---
 jschon/vocabulary/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 4f20adb..162976f 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -183,7 +183,7 @@ class MaxContainsKeyword(Keyword):
     depends_on = "contains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and isinstance(contains.schema_node, JSONSchema):
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
                             f'"contains" subschema (maximum {self.json})')
@@ -195,7 +195,7 @@ class MinContainsKeyword(Keyword):
     depends_on = "contains", "maxContains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and isinstance(contains.schema_node, JSONSchema):
             contains_count = len(contains.annotation) \
                 if contains.annotation is not None \
                 else 0
-- 
2.43.0


From 492f282fa08d9d61746ddc6fc4b1247505306b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 29/30] fix: identify a schema by its $id without an empty
 fragment

---
 jschon/vocabulary/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index ab46624..1e2871c 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -70,6 +70,8 @@ class IdKeyword(Keyword):
         super().__init__(parentschema, value)
 
         (uri := URI(value)).validate(allow_non_empty_fragment=False)
+        # an empty fragment identifies the same resource as no fragment
+        uri = uri.copy(fragment=False)
         if not uri.is_absolute():
             if (base_uri := parentschema.base_uri) is not None:
                 uri = uri.resolve(base_uri)
-- 
2.43.0


From 122cb90d57d6a11bc4b4bdfe729b019b54e17dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 30/30] fix: leave the catalogs as they are when a version is
 unknown

---
 jschon/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jschon/__init__.py b/jschon/__init__.py
index 2dec870..c307d2b 100644
--- a/jschon/__init__.py
+++ b/jschon/__init__.py
@@ -35,19 +35,18 @@ def create_catalog(*versions: str, name: str = 'catalog') -> Catalog:
     """
     from .catalog import _2019_09, _2020_12, _next
 
-    catalog = Catalog(name=name)
-
     version_initializers = {
         '2019-09': _2019_09.initialize,
         '2020-12': _2020_12.initialize,
         'next': _next.initialize,
     }
     try:
-        for version in versions:
-            version_init = version_initializers[version]
-            version_init(catalog)
-
+        initializers = [version_initializers[version] for version in versions]
     except KeyError as e:
         raise ValueError(f'Unrecognized version {e.args[0]!r}')
 
+    catalog = Catalog(name=name)
+    for initialize in initializers:
+        initialize(catalog)
+
     return catalog
-- 
2.43.0

