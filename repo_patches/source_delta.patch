From 0742f1471a9b1548eb375b92593c415bd7e9ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 01/33] fix: rendering a tree no longer returns the text cached
 for other rendering options

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From 9d01bd88d8d7c839e7693351aae490d5d3122c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 02/33] fix: containers of different kinds with equal content
 are no longer treated as the same type

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 2 +-
 .../data_type_tree/generic_type/mapping_data_type_tree.py  | 2 +-
 .../generic_type/pandas_series_data_type_tree.py           | 2 +-
 .../data_type_tree/generic_type/sequence_data_type_tree.py | 2 +-
 .../data_type_tree/generic_type/set_data_type_tree.py      | 7 +++++--
 .../data_type_tree/generic_type/tuple_data_type_tree.py    | 2 +-
 6 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..b16fbe5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -366,7 +366,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         hashes: List[object] = []
         for name, child in self.children.items():
             hashes.append(("typed_dict", name, child._get_hash()))
-        return frozenset(hashes)
+        return "typed_dict", frozenset(hashes)
 
     @staticmethod
     def compare_multiple_typed_dicts_based_trees(*trees: "DictDataTypeTree") -> DictMetadataComparison:
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..ab3a84f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -127,7 +127,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         hashes: List[object] = []
         for name, child in self.children.items():
             hashes.append(("mapping", hash(type(name)), child._get_hash()))
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..48157e2 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -33,7 +33,7 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..bbb791b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -25,7 +25,7 @@ class SequenceDataTypeTree(GenericDataTypeTree):
         hashes: List[object] = []
         for child in self:
             hashes.append(child._get_hash())
-        return frozenset(hashes)
+        return type(self), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..fd3092f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -24,9 +24,12 @@ class SetDataTypeTree(GenericDataTypeTree):
     def _instantiate_children(self, data: Sequence[Any]) -> Tuple[DataTypeTree, ...]:  # type: ignore
         return self.operations.instantiate_children(data, allow_repeated_children=False)
 
+    def _get_container(self) -> Literal["FrozenSet", "set"]:
+        return "FrozenSet" if issubclass(self.holding_type, frozenset) else "set"
+
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["FrozenSet", "set"] = "FrozenSet" if self.holding_type is frozenset else "set"
+        container = self._get_container()
         self.imports.add(container).add("TypeAlias")
 
         if container == "FrozenSet":
@@ -38,7 +41,7 @@ class SetDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return self._get_container(), frozenset(hashes)
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..55ad543 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -52,4 +52,4 @@ class TupleDataTypeTree(SequenceDataTypeTree):
             hashes: List[object] = []
             for child in self:
                 hashes.append(child._get_hash())
-            return tuple(hashes)
+            return type(self), tuple(hashes)
-- 
2.43.0


From 9aa4b43458df89efa666432aaf4d55d8e3e5467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 03/33] fix: different classes stored as values are no longer
 treated as the same type

---
 .../simple_data_type_tree/type_data_type_tree.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..28ea8f5 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return Type, id(self.data)
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From 43ef6b581c962f093035e3f85aaf581c93a0e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 04/33] fix: arrays are described by a dtype class numpy
 provides and told apart by it

---
 .../simple_data_type_tree/numpy_data_type_tree.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..fa3381d 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -12,4 +14,8 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
-        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype.type.__name__}]"'
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return self.holding_type, self.data.dtype.type
-- 
2.43.0


From 1b9b4cf2cc594a22beef888653490dbddb95b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 05/33] fix: callables of any kind get an importable signature
 and no wrongly promised None

---
 .../function_data_type_tree.py                | 83 +++++++++++++++----
 lazy_type_hint/utils/import_manager.py        | 23 ++++-
 2 files changed, 89 insertions(+), 17 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..7bb96e8 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -1,9 +1,10 @@
 import ast
 import inspect
+import re
 import textwrap
-from inspect import Parameter
+from inspect import Parameter, Signature
 from types import BuiltinFunctionType, FunctionType, MappingProxyType, MethodType
-from typing import Any, Callable, Hashable, Optional
+from typing import Any, Callable, Hashable, Optional, get_origin
 
 from typing_extensions import override
 
@@ -11,13 +12,23 @@ from lazy_type_hint.data_type_tree.simple_data_type_tree.simple_data_type_tree i
 from lazy_type_hint.utils import TAB
 
 
+class _Source:
+    """Object represented by the given source code. Used to control how a signature is written."""
+
+    def __init__(self, code: str) -> None:
+        self.code = code
+
+    def __repr__(self) -> str:
+        return self.code
+
+
 class FunctionDataTypeTree(SimpleDataTypeTree):
     wraps = (FunctionType, staticmethod, classmethod, BuiltinFunctionType, MethodType)
     data: Callable[[Any], Any]
 
     @property
     def is_lambda(self) -> bool:
-        return bool(self.data.__name__ == "<lambda>")
+        return bool(getattr(self.data, "__name__", "") == "<lambda>")
 
     @override
     @property
@@ -31,7 +42,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (ValueError, TypeError):
             return False
 
     def _get_str_top_node(self) -> str:
@@ -43,16 +54,54 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
         self.imports.add("Protocol")
-        self.imports.import_all_unkown_symbols_from_signature(args)
+        return f"""class {self.name}(Protocol):\n{TAB}def __call__{self._get_signature_str()}: ..."""
+
+    def _get_signature_str(self) -> str:
+        """Signature of the callable that only makes use of symbols that the generated module knows about."""
+        signature = inspect.signature(self.data)
+        parameters = [
+            parameter.replace(
+                annotation=self._format_annotation(parameter.annotation),
+                default=self._format_default(parameter.default),
+            )
+            for parameter in signature.parameters.values()
+        ]
+        returned = self._format_annotation(signature.return_annotation)
+        if signature.return_annotation is Signature.empty:
+            if self._has_return() is False:
+                returned = _Source("None")
+            else:
+                self.imports.add("Any")
+                returned = _Source("Any")
+        return str(signature.replace(parameters=parameters, return_annotation=returned))
 
-        if "->" not in args:
-            if not self._has_return():
-                return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
-            self.imports.add("Any")
-            return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
-        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
+    @staticmethod
+    def _format_default(default: object) -> object:
+        if default is Parameter.empty:
+            return default
+        try:
+            ast.literal_eval(repr(default))
+        except Exception:  # noqa: BLE001
+            return _Source("...")
+        return default
+
+    def _format_annotation(self, annotation: object) -> object:
+        if annotation is Signature.empty:
+            return annotation
+        if isinstance(annotation, str):
+            self.imports.import_symbols_from_annotation(annotation)
+            return annotation
+        is_class = isinstance(annotation, type) and not get_origin(annotation)
+        if is_class and annotation.__module__ not in ("builtins", "typing"):
+            return annotation.__name__
+        string = inspect.formatannotation(annotation)
+        string = re.sub(r"ForwardRef\(('[^']*')\)", r"\1", string)
+        string = re.sub(r"[~+-](?=[^\W\d])", "", string)  # Variance of type variables
+        string = re.sub(r"\bNoneType\b", "None", string)
+        if self.imports.import_symbols_from_annotation(string):
+            return _Source(string)
+        return string
 
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
@@ -72,13 +121,15 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return self._get_signature_str()
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
+        if hasattr(self.data, "__wrapped__"):  # The source code would be the one of the function that is wrapped
+            return None
         try:
-            tree = ast.parse(code)
+            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except:  # noqa: E722
             return None
-        return any(isinstance(node, ast.Return) for node in ast.walk(tree))
+        returns = (ast.Return, ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)
+        return any(isinstance(node, returns) for node in ast.walk(tree))
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..45e9209 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,3 +1,5 @@
+import ast
+import builtins
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
@@ -107,6 +109,25 @@ class ImportManager:
             return_value = re_output.group(1).rstrip(":")
             self._import_symbols(return_value)
 
+    def import_symbols_from_annotation(self, annotation: str) -> bool:
+        """
+        Imports all known symbols used within the given annotation.
+
+        Returns:
+            bool: True if all the names used within the annotation are either known or built-in ones.
+        """
+        self._import_symbols(annotation)
+        try:
+            nodes = list(ast.walk(ast.parse(annotation, mode="eval")))
+        except (SyntaxError, ValueError):
+            return False
+        for node in nodes:
+            if isinstance(node, ast.Name) and not hasattr(builtins, node.id):
+                symbol = self._cast_symbol(node.id)
+                if not self._is_importable_symbol(symbol) or self.PACKAGE[symbol][0] == symbol:
+                    return False
+        return True
+
     def _import_symbols(self, symbol: str) -> None:
         """Import all unknown symbols. Including those belonging to generic type hints."""
         symbols = re.findall(r"\b\w+\b", symbol)
@@ -117,7 +138,7 @@ class ImportManager:
 
     @staticmethod
     def _cast_symbol(symbol: str) -> str:
-        if symbol in ("List", "Tuple", "Set", "Dict"):
+        if symbol in ("List", "Tuple", "Set", "Dict", "Type"):
             return symbol.lower()
         return symbol
 
-- 
2.43.0


From 1a4487af09374767cd94fc48084e26aceafa9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 06/33] fix: files are described as text or binary files
 instead of being consumed as iterators

---
 lazy_type_hint/data_type_tree/__init__.py           |  5 ++++-
 .../simple_data_type_tree/io_data_type_tree.py      | 13 +++++++++++--
 lazy_type_hint/utils/import_manager.py              |  2 ++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/__init__.py b/lazy_type_hint/data_type_tree/__init__.py
index 656fee9..ae9478c 100644
--- a/lazy_type_hint/data_type_tree/__init__.py
+++ b/lazy_type_hint/data_type_tree/__init__.py
@@ -1,5 +1,8 @@
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree as DataTypeTree
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTreeError as DataTypeTreeError
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory as data_type_tree_factory
-from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree  # noqa: F401
+
+# Simple types are registered before the generic ones. Otherwise, files would be treated as (and read like) iterators.
+# isort: off
 from lazy_type_hint.data_type_tree.simple_data_type_tree import SimpleDataTypeTree  # noqa: F401
+from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree  # noqa: F401
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..405a18e 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,4 +1,5 @@
 import io
+from typing import Hashable, Literal
 
 from typing_extensions import override
 
@@ -10,5 +11,13 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        self.imports.add("TextIO").add("TypeAlias")
-        return f"{self.name}: TypeAlias = TextIO"
+        io_type = self._get_io_type()
+        self.imports.add(io_type).add("TypeAlias")
+        return f"{self.name}: TypeAlias = {io_type}"
+
+    def _get_io_type(self) -> Literal["TextIO", "BinaryIO"]:
+        return "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return self._get_io_type()
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 45e9209..dcaef92 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -42,6 +42,7 @@ KEYWORDS_AVAILABLE: "TypeAlias" = Literal[
     "NDArray",
     "ModuleType",
     "TextIO",
+    "BinaryIO",
     "annotations",
 ]
 
@@ -81,6 +82,7 @@ class ImportManager:
             "TypeAlias": ("typing_extensions", "TypeAlias"),
             "pd.Scalar": ("pandas._typing", "Scalar"),
             "TextIO": ("typing", "TextIO"),
+            "BinaryIO": ("typing", "BinaryIO"),
             "Iterator": ("typing", "Iterator"),
             "annotations": ("__future__", "annotations"),
         }
-- 
2.43.0


From 0798efa8422aaa62459385429c5c5680223f7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 07/33] fix: dictionaries are merged in any order only if their
 values really have the same types

---
 .../data_type_tree/data_type_tree.py          |  3 +-
 .../generic_type/dict_data_type_tree.py       | 25 ++++++--
 .../set_and_sequence_operations.py            | 61 +++++++------------
 3 files changed, 44 insertions(+), 45 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..34c503e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -329,7 +329,8 @@ class DataTypeTree(ABC):
     def _rename(self, new_name: str, *, len_old_name: int) -> None:
         """Rename the current node and all its subsequent children."""
         if self.children:
-            for child in self:
+            children = {id(child): child for child in self}  # Same child might be repeated
+            for child in children.values():
                 child._rename(new_name=new_name, len_old_name=len_old_name)
         if self.parent is not None:
             self.name = new_name + self.name[len_old_name:]
diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b16fbe5..2c0322d 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -44,7 +44,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
@@ -103,9 +103,10 @@ class DictMetadata:
         for dct in dicts_metadata:
             for key, value in dct._data.items():
                 value_type = type(value)
-                if value_type == float and int in value_types[key]:
-                    value_types[key].remove(int)
-                value_types[key].add(type(value))
+                value_types[key].add(value_type)
+        for types in value_types.values():
+            if float in types:
+                types.discard(int)
         return DictMetadataComparison(common_keys=common_keys, non_common_keys=non_common_keys, value_types=value_types)
 
     @property
@@ -365,7 +366,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
+            hashes.append(("typed_dict", name, self.dict_metadata.key_info[name].required, child._get_hash()))
         return "typed_dict", frozenset(hashes)
 
     @staticmethod
@@ -382,6 +383,16 @@ class DictDataTypeTree(MappingDataTypeTree):
         ]
         return DictMetadata.compare_multiple_dicts(*dicts_metadata)
 
+    @staticmethod
+    def have_compatible_children(*trees: "DictDataTypeTree") -> bool:
+        """Whether the values of every key have the same type, not only the same class, within all the trees."""
+        children: Dict[Hashable, Set[DataTypeTree]] = defaultdict(set)
+        for tree in trees:
+            for key, child in tree.children.items():
+                if child.holding_type not in (int, float):  # One can be used in place of the other one
+                    children[key].add(child)
+        return all(len(trees_) == 1 for trees_ in children.values())
+
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
         """
@@ -393,7 +404,9 @@ class DictDataTypeTree(MappingDataTypeTree):
         """
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
-            merged_dict.update(d)
+            for key, value in d.items():
+                if not (type(value) is int and type(merged_dict.get(key)) is float):
+                    merged_dict[key] = value
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..be04765 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -15,7 +15,6 @@ from typing import (
     Set,
     Tuple,
     Union,
-    cast,
 )
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -37,10 +36,7 @@ class SetAndSequenceOperations:
 
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
-        if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
-        else:
-            children = set()
+        children: List[DataTypeTree] = []
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -65,21 +61,14 @@ class SetAndSequenceOperations:
                 parent=self.data_type_tree,
                 strategies=self.data_type_tree.strategies,
             )
-            if allow_repeated_children:
-                # Tuple case
-                children = cast("List[DataTypeTree]", children)
-                if child in names_added:
-                    child.rename(names_added[child])
+            if child not in names_added:
                 children.append(child)
-                names_added[child] = child.name
-            else:
-                # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
-                if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    self._update_existing_typed_dict_child_from_another_equal_child(children, child)
-                if child not in children:
-                    children.add(child)
-                    names_added[child] = name
+                names_added[child] = name
+                continue
+            if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                self._update_existing_typed_dict_child_from_another_equal_child(children, child)
+            if allow_repeated_children:  # Tuple case: Same type is represented by the same tree
+                children.append(next(added for added in children if added == child))
 
         return self._merge_similar_typed_dicts(
             children,
@@ -119,24 +108,20 @@ class SetAndSequenceOperations:
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
 
-        dict_data_type_trees: List[DictDataTypeTree] = []
-        if allow_repeated_children:
-            children = list(children)
-            for child in list(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    dict_data_type_trees.append(child)
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            for idx, child in enumerate(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children[idx] = merged_child
+        dict_data_type_trees: Dict[DictDataTypeTree, None] = {}  # Used as an ordered set
+        for child in children:
+            if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                dict_data_type_trees[child] = None
+        if len(dict_data_type_trees) < 2:
             return tuple(children)
-        else:
-            children = cast("Set[DataTypeTree]", children)
-            for child in children.copy():
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children.remove(child)
-                    dict_data_type_trees.append(child)
-
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
+        if not DictDataTypeTree.have_compatible_children(*dict_data_type_trees):
             return tuple(children)
+
+        merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
+        children_after_merge: List[DataTypeTree] = []
+        for child in children:
+            if child not in dict_data_type_trees:
+                children_after_merge.append(child)
+            elif allow_repeated_children or merged_child not in children_after_merge:
+                children_after_merge.append(merged_child)
+        return tuple(children_after_merge)
-- 
2.43.0


From 54a5d77955fa530030000d81a3436b7559f6091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 08/33] fix: every alias of a generated module has a name of
 its own

---
 .../data_type_tree/data_type_tree.py          | 43 +++++++++++++++++--
 .../generic_type/dict_data_type_tree.py       |  3 +-
 lazy_type_hint/utils/import_manager.py        |  4 ++
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 34c503e..d94f244 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -4,17 +4,21 @@ This data can then be parsed to a .py compatible file that will type hint your c
 """
 from __future__ import annotations
 
+import builtins
 import re
 from abc import ABC, abstractmethod
 from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
+    List,
     Mapping,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -243,9 +247,13 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Optional[OrderedSet[str]] = None) -> None:
+    def _get_strs_all_nodes_unformatted(
+        self, *, types: Optional[OrderedSet[str]] = None, declarations: Optional[Dict[str, str]] = None
+    ) -> None:
         if types is None:
             types = OrderedSet()
+        if declarations is None:
+            declarations = dict.fromkeys(self._get_names_not_available(), "")
 
         if self.depth == 0 and not self.children:
             if self.permission_to_be_created_as_type_alias:
@@ -255,13 +263,40 @@ class DataTypeTree(ABC):
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types)
+            child._get_strs_all_nodes_unformatted(types=types, declarations=declarations)
             if child.permission_to_be_created_as_type_alias:
-                types.add(child.get_str_top_node())
+                types.add(child._get_declaration_with_unique_name(declarations))
         if self.permission_to_be_created_as_type_alias:
-            types.add(self.get_str_top_node())
+            types.add(self._get_declaration_with_unique_name(declarations))
         return
 
+    @final
+    def _get_declaration_with_unique_name(self, declarations: Dict[str, str]) -> str:
+        """Get the string of this same node, whose name changes if it already represents any other declaration."""
+        declaration = self.get_str_top_node()
+        if self.parent is None:
+            return declaration
+        name, count = self.name, 2
+        while declarations.setdefault(self.name, declaration) != declaration:
+            self.name = f"{name}{count}"
+            count += 1
+            declaration = self.get_str_top_node()
+        return declaration
+
+    @final
+    def _get_names_not_available(self) -> Set[str]:
+        """Names that mean something else within the generated module and cannot be used by any child."""
+        names = {self.name, *self.imports.get_all_names(), *vars(builtins)}
+        nodes: List[DataTypeTree] = [self]
+        while nodes:
+            node = nodes.pop()
+            names.add(node.holding_type.__name__)
+            if isinstance(node.data, type):
+                names.add(node.data.__name__)
+            if node.children:
+                nodes.extend(node)
+        return names
+
     @final
     def _format_node_strings(self, strs_py: Sequence[str]) -> str:
         """Get the string representation of the type hints that represent the whole tree."""
diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 2c0322d..a1044c6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -266,8 +266,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index dcaef92..f000a4f 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -88,6 +88,10 @@ class ImportManager:
         }
     )
 
+    def get_all_names(self) -> Set[str]:
+        """All names that might be bound by the imports."""
+        return {reference[-1] for reference in self.PACKAGE.values()} | {"pd", "np", "npt"}
+
     def add(self, keyword: KEYWORDS_AVAILABLE) -> "Self":
         self._set.add(keyword)
         return self
-- 
2.43.0


From 43f444d6c0a634790f6892a4153f75d107634ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 09/33] fix: mapping keys of any class are described by a type
 the generated module can evaluate

---
 .../generic_type/generic_data_type_tree.py            | 11 ++++++++++-
 .../generic_type/mapping_data_type_tree.py            |  6 +-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..1f05b50 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -59,7 +60,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = [self._get_class_name(element) for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
@@ -77,6 +78,14 @@ class GenericDataTypeTree(DataTypeTree):
             return tuple(sorted(child_types_set))
         return tuple(child_types)
 
+    @staticmethod
+    def _get_class_name(element: object) -> str:
+        """Name, as written within a type hint, of the class of the given element."""
+        if element is None:
+            return "None"
+        name = type(element).__name__
+        return name if vars(builtins).get(name) is type(element) else f'"{name}"'
+
     @override
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index ab3a84f..6603bd6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -136,8 +136,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From 514c6aa3af5cf5d5c31519a07abee579a067f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 10/33] fix: names are accepted exactly when they are Python
 identifiers

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py    | 5 ++++-
 lazy_type_hint/utils/utils.py                                | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 6603bd6..32b8c5c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,4 +1,5 @@
 import re
+import unicodedata
 from collections import defaultdict
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
@@ -93,6 +94,8 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @staticmethod
     def _to_camel_case(string: str) -> str:
         """Make it camel case and compatible with Python keywords."""
+        # Different spellings of the same Python identifier
+        string = unicodedata.normalize("NFKC", string)
         # Remove any initial number within the string
         match = re.match(r"^\d+", string)
         if match:
@@ -105,7 +108,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         idx_to_remove: Set[int] = set()
         removed = False
         for idx, char in enumerate(string):
-            if not char.isalpha() and not char.isnumeric():
+            if char == "_" or not f"_{char}".isidentifier():
                 idx_to_remove.add(idx)
             if idx not in idx_to_remove:
                 if removed is True:
diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fc62f8b 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def compare_ast(
-- 
2.43.0


From b76aa7b94ddc8cd93799bf6125bd916140803f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 11/33] fix: any string is written as the very same key of a
 TypedDict

---
 .../generic_type/dict_data_type_tree.py        | 18 +++++++++++++-----
 lazy_type_hint/utils/__init__.py               |  3 +++
 lazy_type_hint/utils/utils.py                  |  7 +++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index a1044c6..9029ef1 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,4 +1,4 @@
-import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -27,6 +27,7 @@ from lazy_type_hint.utils import (
     TAB,
     cache_returned_value_per_instance,
     format_string_as_docstring,
+    format_string_as_literal,
     is_string_python_keyword_compatible,
 )
 
@@ -128,10 +129,17 @@ class DictMetadata:
 
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
-        if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
+        if self._all_keys_are_string(self._data):
+            return all(self._is_key_parsable(key) for key in self._data)
         return False
 
+    def _is_key_parsable(self, key: str) -> bool:
+        """Whether the key can be written as an attribute of a class that will keep exactly the same name."""
+        is_hidden = self.hidden_key_prefix and key.startswith(self.hidden_key_prefix)  # These ones are not written
+        is_name_mangled = key.startswith("__") and not key.endswith("__") and not is_hidden
+        is_name_normalized = unicodedata.normalize("NFKC", key) == key
+        return is_string_python_keyword_compatible(key) and is_name_normalized and not is_name_mangled
+
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
         """Update the wrapped dictionary and its metadata by including a new metadata object."""
         for key, value in other._data.items():
@@ -309,7 +317,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             template = f"""{name} = TypedDict(
 {TAB}"{name}",
 {TAB}{{
-{TAB}{TAB}"{{key}}": {{value}},
+{TAB}{TAB}{{key}}: {{value}},
 {TAB}}},
 )"""
             idx_to_repeat = -3
@@ -328,7 +336,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                modified_line += lines[idx_to_repeat].format(key=format_string_as_literal(key), value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
diff --git a/lazy_type_hint/utils/__init__.py b/lazy_type_hint/utils/__init__.py
index c3d152d..0122aa1 100644
--- a/lazy_type_hint/utils/__init__.py
+++ b/lazy_type_hint/utils/__init__.py
@@ -11,6 +11,9 @@ from lazy_type_hint.utils.utils import (
 from lazy_type_hint.utils.utils import (
     check_if_command_available as check_if_command_available,
 )
+from lazy_type_hint.utils.utils import (
+    format_string_as_literal as format_string_as_literal,
+)
 from lazy_type_hint.utils.utils import (
     is_string_python_keyword_compatible as is_string_python_keyword_compatible,
 )
diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index fc62f8b..f194413 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import json
 import keyword
 import os
 import subprocess
@@ -21,6 +22,12 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     return string.isidentifier() and not keyword.iskeyword(string)
 
 
+def format_string_as_literal(string: str) -> str:
+    """Python source code, always between double quotes, that represents the given string."""
+    literal = json.dumps(string, ensure_ascii=False)
+    return literal.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 def compare_ast(
     node1: Union[ast.expr, List[ast.expr], ast.Module],
     node2: Union[ast.expr, List[ast.expr], ast.Module],
-- 
2.43.0


From 46203d9a5bfc07259b809636583e65bdc44dcb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 12/33] fix: documentation text cannot end or alter the
 docstring that holds it

---
 lazy_type_hint/utils/docstring_formatter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..42b8827 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -34,6 +34,12 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
     return tuple(substrings)
 
 
+def _escape(string: str) -> str:
+    """Escape everything that has a special meaning between triple quotes."""
+    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
+    return string.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 def format_string_as_docstring(string: str, *, max_line_length: int = 90, indentation: str = "") -> str:
     """
     Formats a string as a docstring.
@@ -46,7 +52,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n")
+    string = _escape(string.rstrip("\n"))
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From 1495d15146d93e3f511232b0e360038408d712eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 13/33] fix: data frames are told apart by the types of their
 columns, which may be repeated or not hinted at all

---
 .../pandas_data_frame_data_type_tree.py        | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..4bf8d54 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -87,11 +87,14 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         Set the permissions of this class to be created as a type alias.
 
         Situations where permission is given:
+            - If columns are type hinted, as that requires a class
             - If columns are tuples: And first level are str, int or bool
             - If columns are not tuples: And columns are str, int, bool
 
         Otherwise delegate to super class
         """
+        if self.children:
+            return True
         if all(isinstance(column, tuple) for column in self.data.columns):
             if all(isinstance(column[0], (str, bool, int)) for column in self.data.columns):
                 return True
@@ -141,10 +144,14 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
         if not self.are_all_columns_literal_compatible:
             return {}
 
-        # Corner case to avoid infinite recursion
+        # Corner cases to avoid infinite recursion
+        if isinstance(self.parent, PandasDataFrameDataTypeTree) and self.parent.data.columns.equals(data.columns):
+            return {}  # Repeated columns
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
 
@@ -162,15 +169,16 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
-        if self.strategies.pandas_strategies == "Do not type hint columns":
+    def _get_hash(self) -> Hashable:
+        if not self.children:
             return "pd.DataFrame"
-        return str(self.data.columns)
+        columns = [(type(column), column, child._get_hash()) for column, child in self.children.items()]
+        return "pd.DataFrame", tuple(columns)
 
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("pandas")
-        if len(self) == 0 or not self.strategies.pandas_strategies:
+        if len(self) == 0:
             self.imports.add("TypeAlias")
             return f"{self.name}: TypeAlias = pd.DataFrame"
         self.imports.add("overload")
-- 
2.43.0


From 67345d7eaa381421133293bb4ab1d79180e0b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 14/33] fix: an inspection limit of 0 is refused like any other
 one below 1

---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From 97a56f6e868563c8c7606f0af8b6a6565105503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 15/33] fix: an inspection limit does not count the keys that
 hold documentation

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 3 ++-
 .../data_type_tree/generic_type/mapping_data_type_tree.py  | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 9029ef1..0204d3f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -236,7 +236,8 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            visible_items = (item for item in self.data.items() if not self._is_hidden_key(item[0]))
+            self.data = dict(islice(visible_items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 32b8c5c..1e45598 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -26,7 +26,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
-            if isinstance(key, str) and key.startswith(self.hidden_keys_prefix):
+            if self._is_hidden_key(key):
                 continue
             child = data_type_tree_factory(
                 data=value,
@@ -41,6 +41,11 @@ class MappingDataTypeTree(GenericDataTypeTree):
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
 
+    @classmethod
+    def _is_hidden_key(cls, key: Hashable) -> bool:
+        """Whether the key was artificially created to hold documentation."""
+        return isinstance(key, str) and key.startswith(cls.hidden_keys_prefix)
+
     def _assign_same_data_type_tree_to_keys_with_same_value_type(
         self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
     ) -> None:
-- 
2.43.0


From 862dbec8a1ede410e7490cc787eef803c6f685b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 16/33] fix: written modules and read YAML files are UTF-8
 whatever the locale is

---
 lazy_type_hint/generators/lazy_type_hint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
-- 
2.43.0


From 9be63dcb394b4a04be15d1b9af0d293fffa4c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 17/33] fix: comments of a YAML file never alter its types, its
 data or other files

The temporary file is no longer shared by files with the same name nor left
behind, the data is used without comments if they were misplaced, errors are
not hidden by trying twice and the live generator returns the loaded data.
---
 .../file_modifiers/yaml_file_modifier.py      | 28 ++++++++++--
 .../generators/lazy_type_hint_abc.py          | 44 +++++++++++++++----
 .../generators/lazy_type_hint_live.py         |  4 +-
 3 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..29cb6f1 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -1,5 +1,6 @@
 """Tool that allows to read comments from yaml files and re-introduce them as part of the dictionary."""
 
+import os
 import re
 import tempfile
 from collections import defaultdict
@@ -80,7 +81,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text().splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -426,6 +427,25 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
-        path.write_text(string)
-        return path
+        descriptor, path = tempfile.mkstemp(suffix=f"_{self.path.name}")  # Never shared with anyone else
+        try:
+            with open(descriptor, mode="w", encoding="utf-8") as file:
+                file.write(string)
+        except BaseException:
+            os.remove(path)
+            raise
+        return Path(path)
+
+    @classmethod
+    def is_same_structure(cls, documented: object, original: object) -> bool:
+        """Whether the data with comments as keys only differs from the original one in these new keys."""
+        if type(documented) is not type(original):
+            return False
+        if isinstance(documented, Mapping) and isinstance(original, Mapping):
+            keys = [key for key in documented if not (isinstance(key, str) and key.startswith(cls.prefix))]
+            return keys == list(original) and all(cls.is_same_structure(documented[key], original[key]) for key in keys)
+        if isinstance(documented, (list, tuple)) and isinstance(original, (list, tuple)):
+            return len(documented) == len(original) and all(map(cls.is_same_structure, documented, original))
+        if isinstance(documented, (set, frozenset)):
+            return documented == original
+        return True
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..ea44abc 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -1,5 +1,6 @@
 import os
 from abc import ABC
+from contextlib import suppress
 from dataclasses import dataclass
 from pathlib import Path
 from typing import (
@@ -7,6 +8,7 @@ from typing import (
     Callable,
     Optional,
     Sequence,
+    Tuple,
     TypeVar,
     Union,
 )
@@ -22,6 +24,7 @@ class LazyTypeHintError(Exception):
     """Raised by `LazyTypeHint` class."""
 
 
+ObjectT = TypeVar("ObjectT")
 PathT = TypeVar("PathT", str, Path)
 
 
@@ -41,7 +44,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHintABC(ABC):
@@ -64,16 +67,39 @@ class LazyTypeHintABC(ABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> Any:
+        _, documented_data = self._load_yaml_file(loader, path, comments_are=comments_are)
+        return self.from_data(documented_data, class_name=class_name)
+
+    @staticmethod
+    def _load_yaml_file(
+        loader: Callable[[PathT], ObjectT],
+        path: PathT,
+        *,
+        comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]],
+    ) -> Tuple[ObjectT, ObjectT]:
+        """Return what the loader reads from the file, as it is and with its comments stored as hidden keys."""
         if comments_are is None:
-            return self.from_data(loader(path), class_name=class_name)
-        yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
-        original_data = loader(path)
+            data = loader(path)
+            return data, data
+        try:
+            yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
+        except UnicodeDecodeError:  # Only the loader knows how to decode it
+            data = loader(path)
+            return data, data
+        data = loader(path)
+        temporary_path: Optional[Path] = None
         try:
-            new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
-            return self.from_data(potentially_modified_data, class_name=class_name)
-        except Exception:  # noqa: BLE001
-            return self.from_data(original_data, class_name=class_name)
+            temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
+            documented_data = loader(type(path)(temporary_path))
+            if yaml_file_modifier.is_same_structure(documented_data, data):
+                return data, documented_data
+        except Exception:  # noqa: BLE001, S110
+            pass  # The comments are the only thing that is lost
+        finally:
+            if temporary_path is not None:
+                with suppress(OSError):
+                    os.remove(temporary_path)
+        return data, data
 
     def from_data(
         self,
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..51301f6 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -107,7 +107,9 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        data, documented_data = self._load_yaml_file(loader, path, comments_are=comments_are)
+        self.from_data(documented_data, class_name=class_name)
+        return data
 
     @override
     def from_data(
-- 
2.43.0


From 9a2fcaa1767c8cc58d2e76c94275fbac07996bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 18/33] fix: live type hints are stored at once and never from
 an outdated interface

Every generation starts from the interface stored by then, by any instance,
and holds a lock until it has replaced both files. A process that dies halfway
leaves neither a truncated file nor a class listed without its source code.
---
 .../generators/lazy_type_hint_live.py         | 91 +++++++++++--------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 51301f6..8261146 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,6 +1,8 @@
 import os
 import re
 import shutil
+import threading
+from contextlib import suppress
 from pathlib import Path
 from typing import (
     Any,
@@ -61,6 +63,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
     """Path to the .pyi file associated to this same module."""
     _custom_class_dir_path: Final = _this_file_pyi_path.parent / "build"
     """Path where the new classes will be generated.c"""
+    _lock: Final = threading.RLock()
+    """Held while the stored type hints are read and modified."""
 
     @final
     def __init__(
@@ -71,10 +75,14 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
-        if not self._this_file_pyi_path.exists():
-            self.this_file_pyi = self._generate_this_file_pyi()
-        else:
-            self.this_file_pyi = PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
+        self._load_this_file_pyi()
+
+    def _load_this_file_pyi(self) -> None:
+        with self._lock:
+            if not self._this_file_pyi_path.exists():
+                self.this_file_pyi = self._generate_this_file_pyi()
+            else:
+                self.this_file_pyi = PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
 
     def _get_classes_added(self) -> Mapping[str, Path]:
         to_find = "classes_created"
@@ -122,28 +130,24 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
-        custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
-
-        if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
-            if self._remove_docstrings(string_representation) != self._remove_docstrings(
-                custom_class_file_path.read_text(encoding="utf-8")
-            ):
-                raise LazyTypeHintLiveError(
-                    f"Error in validation: Existing type hints were found for `{class_name}` and this one does not "
-                    "match the inner structure of the input data given."
-                )
-        else:
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
-
-        self._create_custom_class_py(string_representation, class_name)
-        if class_name in self._get_classes_added():
-            return data
-        self._add_new_class_to_loader_pyi(new_class=class_name)
+        string_representation = cast(
+            DataTypeTree, super().from_data(data=data, class_name=class_name)
+        ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
+
+        with self._lock:
+            self._load_this_file_pyi()  # Other instances might have modified it
+            existing_class_path = self._get_classes_added().get(class_name)
+            if existing_class_path is not None and self.if_type_hint_exists == "validate":
+                existing_representation = existing_class_path.read_text(encoding="utf-8")
+                if self._remove_docstrings(string_representation) != self._remove_docstrings(existing_representation):
+                    raise LazyTypeHintLiveError(
+                        f"Error in validation: Existing type hints were found for `{class_name}` and this one does not "
+                        "match the inner structure of the input data given."
+                    )
+
+            self._create_custom_class_py(string_representation, class_name)
+            if existing_class_path is None:
+                self._add_new_class_to_loader_pyi(new_class=class_name)
         return data
 
     @staticmethod
@@ -159,14 +163,16 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
-        if cls._this_file_pyi_path.exists():
-            os.remove(cls._this_file_pyi_path)
+        with cls._lock:
+            # In this order, so that no class is ever listed without its source code
+            if cls._this_file_pyi_path.exists():
+                os.remove(cls._this_file_pyi_path)
+            if cls._custom_class_dir_path.exists():
+                shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-        content = Path(__file__).read_text()
+        content = Path(__file__).read_text(encoding="utf-8")
 
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
@@ -175,11 +181,20 @@ class LazyTypeHintLive(LazyTypeHintABC):
         return file_handler
 
     def _create_custom_class_py(self, string: str, class_name: str) -> None:
-        if not self._custom_class_dir_path.exists():
-            os.makedirs(self._custom_class_dir_path)
+        os.makedirs(self._custom_class_dir_path, exist_ok=True)
+        self._write_file(self._custom_class_dir_path / f"{class_name}.py", string)
 
-        path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+    @staticmethod
+    def _write_file(path: Path, content: str) -> None:
+        """Write the file at once: it has either its previous content or all the new one."""
+        temporary_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+        try:
+            temporary_path.write_text(content, encoding="utf-8")
+            os.replace(temporary_path, path)
+        except BaseException:
+            with suppress(OSError):
+                os.remove(temporary_path)
+            raise
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -187,6 +202,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self._add_import_to_this_file_pyi(new_class)
         for method_name in self._methods_to_be_overloaded:
             self._add_overload_to_this_file_pyi(new_class=new_class, method_name=method_name)
+        self._update_this_file_pyi()
 
     @final
     def _add_import_to_this_file_pyi(self, new_class: str) -> None:
@@ -195,7 +211,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
             import_statement,
             in_type_checking_block=False,
         )
-        self._update_this_file_pyi()
 
     @final
     def _add_overload_to_this_file_pyi(
@@ -229,7 +244,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-        self._update_this_file_pyi()
 
     @final
     def _add_class_created_to_this_file_pyi(self, new_class: str) -> None:
@@ -246,8 +260,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             value = value.replace("], Any]", f', "{new_class}"], Any]')
 
         self.this_file_pyi.replace_assignement(label, value)
-        self._update_this_file_pyi()
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._write_file(self._this_file_pyi_path, str(self.this_file_pyi))
-- 
2.43.0


From 98661fd8f6d903034e57c9afe31be93f8db2200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 19/33] fix: validation ignores the whole text of the
 docstrings and nothing else

---
 .../generators/lazy_type_hint_live.py         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 8261146..53da29c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -152,13 +153,22 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
+        try:
+            module = ast.parse(string)
+        except SyntaxError:
             return string
-
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+        for node in ast.walk(module):
+            if isinstance(node, (ast.Module, ast.ClassDef)):
+                node.body = [
+                    statement
+                    for statement in node.body
+                    if not (
+                        isinstance(statement, ast.Expr)
+                        and isinstance(statement.value, ast.Constant)
+                        and isinstance(statement.value.value, str)
+                    )
+                ]
+        return ast.unparse(module)
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From b973af762c922faa15eb010c47d38caf339e38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:54 +0000
Subject: [PATCH 20/33] fix: __debug__ is no name for a class or a field

---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index f194413..12658dc 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -19,7 +19,8 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return string.isidentifier() and not keyword.iskeyword(string)
+    # `__debug__` is not a keyword but Python refuses any assignment to it
+    return string.isidentifier() and not keyword.iskeyword(string) and string != "__debug__"
 
 
 def format_string_as_literal(string: str) -> str:
-- 
2.43.0


From 77da25bf977c726624feb6b502f9af94439b6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 21/33] fix: an inspection limit never consumes one item more
 of an iterator than it inspects

---
 .../generic_type/set_and_sequence_operations.py              | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index be04765..186c60b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -5,6 +5,7 @@ hinting they are quite similar.
 """
 
 from dataclasses import dataclass
+from itertools import islice
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -41,9 +42,7 @@ class SetAndSequenceOperations:
 
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
-        for idx, element in enumerate(data):
-            if n_elements_to_check and idx >= n_elements_to_check:
-                break
+        for element in islice(data, n_elements_to_check):  # Nothing else is consumed if it is an iterator
             name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
             # Generate new name in case this one was already added
             if name in names_added.values():
-- 
2.43.0


From 7e78522d5f0da760e88a378a6f984ff816f4577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:30 +0000
Subject: [PATCH 22/33] fix: typing classes and renamed lambdas keep their
 signature

---
 .../simple_data_type_tree/function_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 7bb96e8..99a3ab9 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -95,7 +95,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         is_class = isinstance(annotation, type) and not get_origin(annotation)
         if is_class and annotation.__module__ not in ("builtins", "typing"):
             return annotation.__name__
-        string = inspect.formatannotation(annotation)
+        string = annotation.__name__ if is_class else inspect.formatannotation(annotation)  # type: ignore
         string = re.sub(r"ForwardRef\(('[^']*')\)", r"\1", string)
         string = re.sub(r"[~+-](?=[^\W\d])", "", string)  # Variance of type variables
         string = re.sub(r"\bNoneType\b", "None", string)
@@ -131,5 +131,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except:  # noqa: E722
             return None
+        if not isinstance(tree.body[0], (ast.FunctionDef, ast.AsyncFunctionDef)):
+            return None  # A lambda whose name was changed
         returns = (ast.Return, ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)
         return any(isinstance(node, returns) for node in ast.walk(tree))
-- 
2.43.0


From a0ce6c4b1a2525c7851bcd4e2605dfe7df059263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 23/33] fix: an inspection limit does not count the
 documentation keys of mapping proxies either

---
 .../generic_type/mapping_proxy_data_type_tree.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
index bc493a4..a175f92 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
@@ -14,4 +14,5 @@ class MappingProxyDataTypeTree(MappingDataTypeTree):
     @override
     def __pre_child_instantiation__(self) -> None:
         if check_n_max := self.strategies.check_max_n_elements_within_container:
-            self.data = MappingProxyType(dict(islice(self.data.items(), check_n_max)))
+            visible_items = (item for item in self.data.items() if not self._is_hidden_key(item[0]))
+            self.data = MappingProxyType(dict(islice(visible_items, check_n_max)))
-- 
2.43.0


From 7dd8265fed82a46e5d49711957ae4d8c84567de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 24/33] fix: comments of a YAML file never appear within the
 texts of its values

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 12 ++++++++++++
 lazy_type_hint/generators/lazy_type_hint_abc.py     |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 29cb6f1..95457b0 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -449,3 +449,15 @@ class YamlFileModifier:
         if isinstance(documented, (set, frozenset)):
             return documented == original
         return True
+
+    @classmethod
+    def restore_values(cls, documented: object, original: object) -> object:
+        """Replace by the original ones all those values with comments introduced in the middle of their texts."""
+        if isinstance(documented, dict) and isinstance(original, Mapping):
+            for key in original:
+                documented[key] = cls.restore_values(documented[key], original[key])
+            return documented
+        if isinstance(documented, list) and isinstance(original, list):
+            documented[:] = map(cls.restore_values, documented, original)
+            return documented
+        return original if isinstance(original, str) else documented
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index ea44abc..6726ad1 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -92,7 +92,7 @@ class LazyTypeHintABC(ABC):
             temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
             documented_data = loader(type(path)(temporary_path))
             if yaml_file_modifier.is_same_structure(documented_data, data):
-                return data, documented_data
+                return data, yaml_file_modifier.restore_values(documented_data, data)  # type: ignore
         except Exception:  # noqa: BLE001, S110
             pass  # The comments are the only thing that is lost
         finally:
-- 
2.43.0


From e70722fc931bed06bc59295e84b5be4f27b8b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 25/33] fix: comments of a YAML file document exactly the key
 they belong to

---
 .../file_modifiers/yaml_file_modifier.py      | 52 ++++++++++---------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 95457b0..a6fbae7 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -4,7 +4,6 @@ import os
 import re
 import tempfile
 from collections import defaultdict
-from contextlib import suppress
 from dataclasses import dataclass
 from pathlib import Path
 from typing import (
@@ -22,6 +21,9 @@ from typing import (
 YAML_COMMENTS_POSITION = Literal["above", "below", "side"]
 """Possible locations where comments can be written."""
 
+QUOTED_TEXT: Final = re.compile(r"""(?<![^\s\[{,:-])(?:"(?:[^"\\]|\\.)*"|'(?:[^']|'')*')""")
+"""Pattern of those texts between quotes, where any other symbol has no special meaning."""
+
 
 @dataclass(frozen=True)
 class Comment:
@@ -158,14 +160,11 @@ class YamlFileModifier:
         Example:
             yaml_key: value  # My comment
         """
-        idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line, "#")
+        line_ = re.sub(QUOTED_TEXT, lambda match: "_" * len(match.group()), line)
+        line_ = re.sub(r"(?<=[^\s\[{,:#-])['\"]|(?<=\S)#", "_", line_)  # Symbols that are part of a plain text
+        idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line_, "#")
         if not idx:
             return ""
-        try:
-            if line[idx - 1] != " ":
-                return ""
-        except IndexError:
-            return ""
         comment = line[idx + 1 :].strip().rstrip()
         if comment and not comment.endswith("."):
             return comment + "."
@@ -200,12 +199,14 @@ class YamlFileModifier:
         idx_first_char = line.find(line.strip().replace("-", "").strip()[0])
 
         step: Final = -1 if comments_are == "above" else 1
-        increment = step
         multi_line_comments: List[str] = []
-        with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
-                multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
-                increment += step
+        comment_idx = line_idx + step
+        while 0 <= comment_idx < len(self.lines):
+            spacing, comment_line = self.lines[comment_idx][:idx_first_char], self.lines[comment_idx][idx_first_char:]
+            if spacing.strip() or not comment_line.startswith("#"):
+                break
+            multi_line_comments.append(comment_line[1:].strip())
+            comment_idx += step
 
         if not multi_line_comments:
             return ""
@@ -214,7 +215,7 @@ class YamlFileModifier:
             string = self._join_multi_line_comments(multi_line_comments[::-1])
         else:
             string = self._join_multi_line_comments(multi_line_comments)
-        return string.replace("'''", "").replace('"""', "")
+        return string
 
     @staticmethod
     def _find_first_occurrence_that_is_not_between(
@@ -252,6 +253,8 @@ class YamlFileModifier:
         line = YamlFileModifier._remove_spacing(line)
         if line[0] == "-":  # Detect list cases
             line = " " + line[1:]
+        while line.lstrip().startswith("- "):  # Lists of lists
+            line = line.lstrip()[1:]
 
         idx_first_char = line.find(line.strip()[0])
         idx_last_char = YamlFileModifier._find_first_occurrence_that_is_not_between(line=line, occurrence=":")
@@ -279,16 +282,12 @@ class YamlFileModifier:
                 tabs are used.
 
         """
-        tabs_used = any("\t" in line for line in lines)
-        spaces_used = any(" " in line for line in lines)
+        indentations = [line[: len(line) - len(line.lstrip())] for line in lines]
+        tabs_used = any("\t" in indentation for indentation in indentations)
+        spaces_used = any(" " in indentation for indentation in indentations)
         if tabs_used and spaces_used:
             return "??"
-        elif tabs_used:
-            return "tabs"
-        elif spaces_used:
-            return "spaces"
-        else:
-            return "??"
+        return "tabs" if tabs_used else "spaces"
 
     @staticmethod
     def _count_spaces_or_tabs_at_start(line: str, *, indentation: Literal["spaces", "tabs"]) -> Optional[int]:
@@ -330,7 +329,9 @@ class YamlFileModifier:
 
         for idx, line in enumerate(self.lines):
             line_with_no_spacing = self._remove_spacing(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
+            if len(line_with_no_spacing) > 0 and (
+                line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] in "-_'\""
+            ):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
@@ -411,9 +412,12 @@ class YamlFileModifier:
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
             key = self.prefix + comment.associated_with_key
-            string = f"{comment.spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
+            spacing = comment.spacing
             if comment.must_replace_its_key_as_first_element_of_list:
-                new_lines[comment.key_line] = new_lines[comment.key_line].replace("-", " ", 1)
+                line = new_lines[comment.key_line]
+                spacing = line[: comment.spacing_element[1]]  # As many hyphens as lists the key is the first element of
+                new_lines[comment.key_line] = " " * len(spacing) + line[len(spacing) :]
+            string = f"{spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
             new_lines.insert(comment.key_line, string)
         return "\n".join(new_lines)
 
-- 
2.43.0


From 19ae596c8f9d639f7a9ed0a51e0440e4ec9dddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:28 +0000
Subject: [PATCH 26/33] fix: documentation of equal dictionaries is not lost
 when they share a declaration

---
 .../data_type_tree/data_type_tree.py          |  9 +++++++++
 .../generic_type/dict_data_type_tree.py       |  8 ++++++++
 .../generic_type/mapping_data_type_tree.py    |  8 +++++---
 .../set_and_sequence_operations.py            | 20 +++----------------
 4 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index d94f244..a950d7e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -355,6 +355,15 @@ class DataTypeTree(ABC):
             return hash(self) == hash(other_object)
         return False
 
+    def update_documentation(self, other: DataTypeTree) -> None:
+        """Include the documentation found within another equal tree that will not be represented on its own."""
+        if not self.children or not other.children:
+            return
+        children = {child: child for child in self}
+        for child in list(other):
+            if child in children:
+                children[child].update_documentation(child)
+
     @final
     def rename(self, new_name: str) -> None:
         """Rename the current node and all its subsequent children."""
diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 0204d3f..83927e0 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -356,6 +356,12 @@ class DictDataTypeTree(MappingDataTypeTree):
         """Given another child, this will update the current node with all the data and metadata."""
         self.data = dict(self.dict_metadata.update(other.dict_metadata))
 
+    @override
+    def update_documentation(self, other: DataTypeTree) -> None:
+        if isinstance(other, DictDataTypeTree) and self.dict_metadata.is_typed_dict:
+            self.update_data_and_metadata(other)
+        super().update_documentation(other)
+
     def _insert_class_docstring(self, lines: Sequence[str], *, key_used_as_doc: str) -> List[str]:
         string = self.data[key_used_as_doc]
         lines = list(lines)
@@ -442,4 +448,6 @@ class DictDataTypeTree(MappingDataTypeTree):
             parent=trees[0].parent,
         )
         new_tree.dict_metadata = random_tree.dict_metadata
+        for tree in trees:
+            super(DictDataTypeTree, new_tree).update_documentation(tree)
         return new_tree
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 1e45598..65909a8 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -22,7 +22,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @override
     def _instantiate_children(self, data: Mapping[Hashable, object]) -> Mapping[Hashable, DataTypeTree]:  # type: ignore
         children: Dict[Hashable, DataTypeTree] = {}
-        children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
+        children_info: Dict[DataTypeTree, List[Hashable]] = defaultdict(list)
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
@@ -36,7 +36,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
                 strategies=self.strategies,
                 parent=self,
             )
-            children_info[child].add(key)
+            children_info[child].append(key)
             children[key] = child
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
@@ -47,7 +47,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         return isinstance(key, str) and key.startswith(cls.hidden_keys_prefix)
 
     def _assign_same_data_type_tree_to_keys_with_same_value_type(
-        self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
+        self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, List[Hashable]]
     ) -> None:
         """
         Simplify the tree.
@@ -67,6 +67,8 @@ class MappingDataTypeTree(GenericDataTypeTree):
                     last_name_added[data_type_tree.holding_type] = 1
                 data_type_tree.rename(new_name)
                 for hashable in values:
+                    if children[hashable] is not data_type_tree:
+                        data_type_tree.update_documentation(children[hashable])
                     children[hashable] = data_type_tree
 
     def _get_str_top_node(self) -> str:
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 186c60b..d09193f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -10,7 +10,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Dict,
-    Iterable,
     List,
     Sequence,
     Set,
@@ -64,10 +63,10 @@ class SetAndSequenceOperations:
                 children.append(child)
                 names_added[child] = name
                 continue
-            if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                self._update_existing_typed_dict_child_from_another_equal_child(children, child)
+            child_added = next(child_added for child_added in children if child_added == child)
+            child_added.update_documentation(child)  # It might carry any extra information such as docstrings
             if allow_repeated_children:  # Tuple case: Same type is represented by the same tree
-                children.append(next(added for added in children if added == child))
+                children.append(child_added)
 
         return self._merge_similar_typed_dicts(
             children,
@@ -75,19 +74,6 @@ class SetAndSequenceOperations:
             allow_repeated_children=allow_repeated_children,
         )
 
-    def _update_existing_typed_dict_child_from_another_equal_child(
-        self, children: "Iterable[DataTypeTree]", child: DictDataTypeTree
-    ) -> None:
-        """
-        Merge dicts equal from the point of view of types but that might carry any extra information or metadata.
-
-        This extra information can be hidden docstrings. Therefore, this will transfer all the information
-        to the already added DictDataTypeTree child
-        """
-        for child_added in children:
-            if child == child_added and isinstance(child_added, DictDataTypeTree):
-                child_added.update_data_and_metadata(child)
-
     @staticmethod
     def _merge_similar_typed_dicts(
         children: "Union[Set[DataTypeTree], Sequence[DataTypeTree]]",
-- 
2.43.0


From 757cddfe6cb91f21da83eadba1b445aad2f2f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:43 +0000
Subject: [PATCH 27/33] fix: documentation text with lone surrogates does not
 break the module

---
 lazy_type_hint/utils/docstring_formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 42b8827..fb4d3f6 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -36,8 +36,9 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
 
 def _escape(string: str) -> str:
     """Escape everything that has a special meaning between triple quotes."""
-    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
-    return string.encode("utf-8", "backslashreplace").decode("utf-8")
+    # Lone surrogates are spelled out: not even their escape sequence is accepted within a docstring
+    string = string.encode("utf-8", "backslashreplace").decode("utf-8")
+    return string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
 
 
 def format_string_as_docstring(string: str, *, max_line_length: int = 90, indentation: str = "") -> str:
-- 
2.43.0


From 9456b39094a77daaaedb4b43704625730c3f6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 28/33] fix: keys of string subclasses are written as the
 attribute they name

---
 .../data_type_tree/generic_type/dict_data_type_tree.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 83927e0..1a8bf05 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -340,7 +340,10 @@ class DictDataTypeTree(MappingDataTypeTree):
                 modified_line += lines[idx_to_repeat].format(key=format_string_as_literal(key), value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
-                modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
+                attribute = str.__str__(key)  # Subclasses such as enumerations might be formatted in a different way
+                modified_line += lines[idx_to_repeat].format(
+                    key=attribute, value=value, optional_key_docstring=docstring
+                )
                 if not docstring:
                     modified_line += "\n"
         lines[idx_to_repeat] = modified_line[:-1]
-- 
2.43.0


From 994b28c300224caf5ce05b1da6c6400f03d69576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:29 +0000
Subject: [PATCH 29/33] fix: data frame labels of string and integer subclasses
 are written as plain literals

---
 .../pandas_data_frame_data_type_tree.py           | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 4bf8d54..6be1b91 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -119,6 +119,11 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     def literal_compatible_types(self) -> Tuple[Type[str], Type[bool], Type[int]]:
         return str, bool, int
 
+    def _format_literal(self, label: Union[str, bool, int]) -> str:
+        """Source code of the label, no matter how its class (an enumeration, for example) represents it."""
+        base_type = next(type_ for type_ in (str, bool, int) if isinstance(label, type_))
+        return base_type.__repr__(label)  # type: ignore
+
     @property
     def are_all_columns_literal_compatible(self) -> bool:
         column: Hashable
@@ -195,16 +200,20 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         for literal, child in self.children.items():
             if isinstance(literal, self.literal_compatible_types):
                 if child.permission_to_be_created_as_type_alias:
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=child.name))
+                    overloads.append(
+                        LITERAL_OVERLOAD_TEMPLATE.format(literal=self._format_literal(literal), rtype=child.name)
+                    )
                 else:
                     rtype = child.get_str_top_node_without_lvalue()
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=rtype))
+                    overloads.append(
+                        LITERAL_OVERLOAD_TEMPLATE.format(literal=self._format_literal(literal), rtype=rtype)
+                    )
         if self.strategies.pandas_strategies == "Full type hint":
             literal_compatible_keys: List[str] = []
             extra_types = ""
             for key in self.children:
                 if isinstance(key, self.literal_compatible_types):
-                    literal_compatible_keys.append(repr(key))
+                    literal_compatible_keys.append(self._format_literal(key))
                 else:
                     self.imports.add("Hashable")
                     extra_types = ", Hashable"  # This can be more precise, but not supported yet
-- 
2.43.0


From f11d4c1ed99310efcb12ace8c49c0f739c0cf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:15 +0000
Subject: [PATCH 30/33] fix: classes named like a builtin one are not described
 as the builtin one

---
 .../simple_data_type_tree/instance_data_type_tree.py       | 7 ++-----
 .../simple_data_type_tree/type_data_type_tree.py           | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
index ddb98ac..ef41073 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
@@ -34,8 +34,5 @@ class InstanceDataTypeTree(SimpleDataTypeTree):
         return
 
     def _is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.holding_type.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        # A class that is not a builtin one might have the same name
+        return getattr(builtins, self.holding_type.__name__, None) is self.holding_type
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 28ea8f5..dd77322 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -22,8 +22,5 @@ class TypeDataTypeTree(SimpleDataTypeTree):
         return Type, id(self.data)
 
     def is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.data.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        # A class that is not a builtin one might have the same name
+        return getattr(builtins, self.data.__name__, None) is self.data
-- 
2.43.0


From b20c32264614b76f6578e3818dfdd7e7f888bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:44 +0000
Subject: [PATCH 31/33] fix: comments of YAML files with the longest names
 allowed are not lost

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a6fbae7..d50e808 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -431,7 +431,7 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        descriptor, path = tempfile.mkstemp(suffix=f"_{self.path.name}")  # Never shared with anyone else
+        descriptor, path = tempfile.mkstemp(suffix=self.path.suffix)  # Never shared with anyone else
         try:
             with open(descriptor, mode="w", encoding="utf-8") as file:
                 file.write(string)
-- 
2.43.0


From 20bc5ffc2ee216ea8c356476971e971a81fc0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:44 +0000
Subject: [PATCH 32/33] fix: the live interface accepts the longest class names
 a file can have

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 53da29c..5842d56 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -20,6 +20,7 @@ from typing import (
     final,
     overload,  # noqa: F401
 )
+from uuid import uuid4
 
 from typing_extensions import TypeAlias, override
 
@@ -197,7 +198,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @staticmethod
     def _write_file(path: Path, content: str) -> None:
         """Write the file at once: it has either its previous content or all the new one."""
-        temporary_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+        temporary_path = path.with_name(f".{uuid4().hex}.tmp")  # Never longer than the names allowed
         try:
             temporary_path.write_text(content, encoding="utf-8")
             os.replace(temporary_path, path)
-- 
2.43.0


From 6b0bf46272d591faeeb9cd12377550a55c5b0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:37 +0000
Subject: [PATCH 33/33] fix: data frames whose labels are tuples without levels
 do not fail

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 6be1b91..536df10 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -157,8 +157,8 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         # Corner cases to avoid infinite recursion
         if isinstance(self.parent, PandasDataFrameDataTypeTree) and self.parent.data.columns.equals(data.columns):
             return {}  # Repeated columns
-        if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
-            return {}
+        if self.can_be_accessed_multilevel and data.columns.nlevels == 1:
+            return {}  # Tuples are the labels themselves, which cannot be accessed by their first element
 
         columns_processed: Set[Union[bool, str, int]] = set()
         for column in data.columns:
-- 
2.43.0

