From 7f5471ba513613d3af8d6f97f13d4ef924b1c471 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 01/27] fix: log the exception that escapes, not the one being
 handled

The uncaught-exception hooks and LoggingPortal.__exit__ looked at
sys.exc_info() instead of the exception they were given: the hook never
logged anything, and leaving a portal normally inside an except block
logged an exception that had already been handled.
---
 pythagoras/_020_logging_portals/logging_portals.py  | 12 +++++++-----
 pythagoras/_070_pure_functions/pure_core_classes.py |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 1c3f14f..0dc520d 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -19,12 +19,12 @@ from pythagoras._820_strings_signatures_converters.random_signatures import (
 
 
 def pth_excepthook(exc_type, exc_value, trace_back) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger((exc_type, exc_value, trace_back))
     sys.__excepthook__(exc_type, exc_value, trace_back)
 
 def pth_excepthandler(_, exc_type, exc_value
                     , trace_back, tb_offset=None) -> None:
-    LoggingPortal._exception_logger()
+    LoggingPortal._exception_logger((exc_type, exc_value, trace_back))
     traceback.print_exception(exc_type, exc_value, trace_back)
 
 _previous_excepthook = None
@@ -307,8 +307,10 @@ class LoggingPortal(BasicPortal):
         return build_execution_environment_summary()
 
     @staticmethod
-    def _exception_logger():
-        exc_type, exc_value, trace_back = sys.exc_info()
+    def _exception_logger(exc_info:tuple|None = None):
+        if exc_info is None:
+            exc_info = sys.exc_info()
+        exc_type, exc_value, trace_back = exc_info
 
         if not LoggingPortal._exception_needs_to_be_processed(
                 exc_type, exc_value, trace_back):
@@ -324,7 +326,7 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger()
+        LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
         super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index af5b3fd..de2af80 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -967,7 +967,7 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, traceback)
+        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
         output_id = self.session_id+"_output"
         execution_outputs = self.fn_address.execution_outputs
@@ -976,7 +976,7 @@ class PureFnExecutionFrame(PortalAwareClass):
         # self.register_exception(
         #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
 
-        self.portal.__exit__(exc_type, exc_value, traceback)
+        self.portal.__exit__(exc_type, exc_value, trace_back)
         self.fn.call_stack.pop()
 
 
-- 
2.43.0


From eb9ee00d1d85753278645e8bf6d4397aa25e9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 02/27] fix: remember the previous sys.excepthook so that it
 can be restored

The assignment was to a local variable, so unregistering never put the
previous hook back.
---
 pythagoras/_020_logging_portals/logging_portals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 0dc520d..0c09050 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -29,6 +29,7 @@ def pth_excepthandler(_, exc_type, exc_value
 
 _previous_excepthook = None
 def register_systemwide_uncaught_exception_handlers() -> None:
+    global _previous_excepthook
     if not is_executed_in_notebook():
         _previous_excepthook = sys.excepthook
         sys.excepthook = pth_excepthook
-- 
2.43.0


From 40faa8add8b0047f6082c9e5e56486f3f62e7025 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 03/27] fix: leave the portal even if logging the exception
 fails

A failure to write the crash record left the portal on the stack of
entered portals.
---
 pythagoras/_020_logging_portals/logging_portals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_020_logging_portals/logging_portals.py b/pythagoras/_020_logging_portals/logging_portals.py
index 0c09050..a75164b 100644
--- a/pythagoras/_020_logging_portals/logging_portals.py
+++ b/pythagoras/_020_logging_portals/logging_portals.py
@@ -327,8 +327,10 @@ class LoggingPortal(BasicPortal):
 
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
-        super().__exit__(exc_type, exc_val, exc_tb)
+        try:
+            LoggingPortal._exception_logger((exc_type, exc_val, exc_tb))
+        finally:
+            super().__exit__(exc_type, exc_val, exc_tb)
         return False
 
     @staticmethod
-- 
2.43.0


From 82eed70218426fc820e6b8031c8208f397a66f70 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 04/27] fix: undo the effects of an execution frame when
 recording fails

A failure to record an execution attempt or its output left stdout,
stderr, the portal stack and the function's call stack as they were
during the execution.
---
 .../_070_pure_functions/pure_core_classes.py  | 29 ++++++++++++-------
 .../output_capturer.py                        | 12 ++++----
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index de2af80..13fc19e 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -1,8 +1,8 @@
 from __future__ import annotations
 
 import os
+import sys
 import time
-import traceback
 from copy import copy
 from typing import Callable, Any, List, TypeAlias
 
@@ -949,7 +949,11 @@ class PureFnExecutionFrame(PortalAwareClass):
         self.portal.__enter__()
         self.output_capturer.__enter__()
         self.fn.call_stack.append(self)
-        self.register_execution_attempt()
+        try:
+            self.register_execution_attempt()
+        except:
+            self.__exit__(*sys.exc_info())
+            raise
         return self
 
     def register_execution_attempt(self):
@@ -967,17 +971,20 @@ class PureFnExecutionFrame(PortalAwareClass):
             self.fn_address + ["results", self.session_id]] = result
 
     def __exit__(self, exc_type, exc_value, trace_back):
-        self.output_capturer.__exit__(exc_type, exc_value, trace_back)
+        try:
+            self.output_capturer.__exit__(exc_type, exc_value, trace_back)
 
-        output_id = self.session_id+"_output"
-        execution_outputs = self.fn_address.execution_outputs
-        execution_outputs[output_id] = self.output_capturer.get_output()
+            output_id = self.session_id+"_output"
+            execution_outputs = self.fn_address.execution_outputs
+            execution_outputs[output_id] = self.output_capturer.get_output()
 
-        # self.register_exception(
-        #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
-
-        self.portal.__exit__(exc_type, exc_value, trace_back)
-        self.fn.call_stack.pop()
+            # self.register_exception(
+            #     exc_type=exc_type, exc_value=exc_value, trace_back=trace_back)
+        finally:
+            try:
+                self.portal.__exit__(exc_type, exc_value, trace_back)
+            finally:
+                self.fn.call_stack.pop()
 
 
     def _extra_exception_data(self) -> dict:
diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 23961d8..0fe8367 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -100,11 +100,13 @@ class OutputCapturer:
     def __exit__(self, exc_type, exc_val, exc_tb):
         """Restore stdout, stderr, and logging output to their original state.
         """
-        if exc_type is not None:
-            traceback.print_exc()
-        sys.stdout = self.original_stdout
-        sys.stderr = self.original_stderr
-        logging.root.handlers = self.original_log_handlers
+        try:
+            if exc_type is not None:
+                traceback.print_exc()
+        finally:
+            sys.stdout = self.original_stdout
+            sys.stderr = self.original_stderr
+            logging.root.handlers = self.original_log_handlers
 
     def get_output(self):
         """Retrieve the captured output from the buffer.
-- 
2.43.0


From 0ec472da59019f25e1295d1e75a6ac142554113c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 05/27] fix: recognise every way to bind a name inside a
 function

Keyword-only and positional-only parameters, lambda parameters, nested
classes and coroutines, dotted and relative imports, match patterns and
except* handlers were not treated as bindings, so self-sufficient
functions that used them were rejected as not autonomous.
---
 .../names_usage_analyzer.py                   | 72 ++++++++++++++-----
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index f6e0af6..b258b18 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -20,7 +20,6 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
     This class is a visitor of an AST (Abstract Syntax Tree) that collects data
     needed to analyze function autonomy.
     """
-    # TODO: add support for structural pattern matching
     def __init__(self):
         self.names = NamesUsedInFunction()
         self.imported_packages_deep = set()
@@ -31,29 +30,50 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
-            for arg in node.args.args:
-                self.names.local |= {arg.arg}
-            if node.args.vararg:
-                self.names.local |= {node.args.vararg.arg}
-            if node.args.kwarg:
-                self.names.local |= {node.args.kwarg.arg}
-            self.names.accessible |= self.names.local
+            self._bind_arguments(node.args)
             self.generic_visit(node)
             self.func_nesting_level -= 1
         else:
             nested = NamesUsageAnalyzer()
             nested.visit(node)
-            self.imported_packages_deep |= nested.imported_packages_deep
-            nested.names.explicitly_nonlocal_unbound_deep -= self.names.accessible
-            self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
-            self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
-            nested.names.unclassified_deep -= self.names.accessible
-            self.names.unclassified_deep |= nested.names.unclassified_deep
+            self._merge_nested(nested)
             self.names.local |= {node.name}
             self.names.accessible |= {node.name}
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
+    def _bind_arguments(self, args):
+        for arg in args.posonlyargs + args.args + args.kwonlyargs:
+            self.names.local |= {arg.arg}
+        if args.vararg:
+            self.names.local |= {args.vararg.arg}
+        if args.kwarg:
+            self.names.local |= {args.kwarg.arg}
+        self.names.accessible |= self.names.local
+
+    def _merge_nested(self, nested):
+        self.imported_packages_deep |= nested.imported_packages_deep
+        nested.names.explicitly_nonlocal_unbound_deep -= self.names.accessible
+        self.names.explicitly_nonlocal_unbound_deep |= nested.names.explicitly_nonlocal_unbound_deep
+        self.names.explicitly_global_unbound_deep |= nested.names.explicitly_global_unbound_deep
+        nested.names.unclassified_deep -= self.names.accessible
+        self.names.unclassified_deep |= nested.names.unclassified_deep
+
+    def visit_Lambda(self, node):
+        self.visit(node.args)
+        nested = NamesUsageAnalyzer()
+        nested.func_nesting_level = 1
+        nested._bind_arguments(node.args)
+        nested.visit(node.body)
+        self._merge_nested(nested)
+
+    def visit_ClassDef(self, node):
+        self.names.local |= {node.name}
+        self.names.accessible |= {node.name}
+        self.generic_visit(node)
+
     def visit_Name(self, node):
         if isinstance(node.ctx, ast.Load):
             if node.id not in self.names.accessible:
@@ -82,6 +102,25 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             self.names.accessible |= {handler.name}
         self.generic_visit(node)
 
+    visit_TryStar = visit_Try
+
+    def _bind_pattern_name(self, name):
+        if name is not None:
+            self.names.local |= {name}
+            self.names.accessible |= {name}
+
+    def visit_MatchAs(self, node):
+        self._bind_pattern_name(node.name)
+        self.generic_visit(node)
+
+    def visit_MatchStar(self, node):
+        self._bind_pattern_name(node.name)
+        self.generic_visit(node)
+
+    def visit_MatchMapping(self, node):
+        self._bind_pattern_name(node.rest)
+        self.generic_visit(node)
+
     def visit_comprehension(self, node):
         if isinstance(node.target, (ast.Tuple, ast.List)):
             all_targets =node.target.elts
@@ -119,14 +158,15 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            name = alias.asname if alias.asname else alias.name
+            name = alias.asname if alias.asname else alias.name.split('.')[0]
             self.names.imported |= {name}
             self.imported_packages_deep |= {alias.name.split('.')[0]}
         self.names.accessible |= self.names.imported
         self.generic_visit(node)
 
     def visit_ImportFrom(self, node):
-        self.imported_packages_deep |= {node.module.split('.')[-1]}
+        if node.module is not None:
+            self.imported_packages_deep |= {node.module.split('.')[-1]}
         for alias in node.names:
             name = alias.asname if alias.asname else alias.name
             self.names.imported |= {name}
-- 
2.43.0


From de541ecf9af8405ec61f0c7b23aae61052a5496a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 06/27] fix: normalise functions that annotate their local
 variables

Dropping the annotation of an annotated assignment left a syntax tree
that can't be converted back to source code.
---
 .../code_normalizer_implementation.py         | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 00c5f76..049084d 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -24,6 +24,26 @@ from pythagoras._040_ordinary_functions.assert_ordinarity import assert_ordinari
 import pythagoras as pth
 
 
+class _VariableAnnotationsRemover(ast.NodeTransformer):
+    """Remove type annotations from variable declarations.
+
+    Annotations of class attributes are kept: they are not just hints,
+    they define the fields of (for example) dataclasses and named tuples.
+    """
+
+    def visit_ClassDef(self, node):
+        node.body = [s if isinstance(s, ast.AnnAssign) else self.visit(s)
+            for s in node.body]
+        return node
+
+    def visit_AnnAssign(self, node):
+        if node.value is None:
+            result = ast.Pass()
+        else:
+            result = ast.Assign(targets=[node.target], value=node.value)
+        return ast.copy_location(result, node)
+
+
 def __get_normalized_function_source__(
         a_func:Callable|str
         , drop_pth_decorators:bool = False
@@ -100,14 +120,11 @@ def __get_normalized_function_source__(
         assert pth_dec_counter == 1
         code_ast.body[0].decorator_list = []
 
+    code_ast = _VariableAnnotationsRemover().visit(code_ast)
+
     # Remove docstrings.
     for node in ast.walk(code_ast):
 
-        if isinstance(node, ast.AnnAssign):
-            # remove type annotation from variable declarations
-            node.annotation = None
-            continue
-
         if isinstance(node, ast.arg):
             # argument annotations in functions
             node.annotation = None
-- 
2.43.0


From 17ceacea141f3259e0a9cf4f8810b9556e5ff1eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 07/27] fix: make OverlappingMultiDict refuse pickling and
 direct item access

The methods that do it were defined inside __init__.
---
 .../overlapping_multi_dict.py                 | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
index b120b37..3cfecbf 100644
--- a/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
+++ b/pythagoras/_800_persidict_extensions/overlapping_multi_dict.py
@@ -35,23 +35,23 @@ class OverlappingMultiDict:
                 ,**individual_subdicts_params[subdict_name]
                 ,"file_type":subdict_name})
 
-        def __getstate__(self):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __setstate__(self, state):
-            raise NotAllowedError("This object should never be pickled")
-
-        def __getitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __setitem__(self, key, value):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
-
-        def __delitem__(self, key):
-            raise NotAllowedError(
-                "Individual items should be accessed through nested dicts, "
-                + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
+    def __getstate__(self):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __setstate__(self, state):
+        raise NotAllowedError("This object should never be pickled")
+
+    def __getitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __setitem__(self, key, value):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
+
+    def __delitem__(self, key):
+        raise NotAllowedError(
+            "Individual items should be accessed through nested dicts, "
+            + f"which are available via attributes {self.subdicts_names}")
\ No newline at end of file
-- 
2.43.0


From 0e8ae2d9b960fb626869dec54e3788eb25143474 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 08/27] fix: report why a function can't be registered

When its registration failed, collecting the data about the failed
execution failed too, which hid the actual reason.
---
 pythagoras/_040_ordinary_functions/ordinary_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
index 26f12f6..92146ee 100644
--- a/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
+++ b/pythagoras/_040_ordinary_functions/ordinary_core_classes.py
@@ -173,8 +173,8 @@ class OrdinaryFn(PortalAwareClass):
             , exception_extra_data_to_persist=exception_extra_data_to_persist)
 
     def execute(self,**kwargs):
+        self._complete_fn_registration()
         try:
-            self._complete_fn_registration()
             names_dict = self._available_names()
             names_dict[self._kwargs_var_name] = kwargs
             exec(self._fn_bytecode, names_dict, names_dict)
-- 
2.43.0


From 907300646edba8f17d7ea50cb4cdec1b2b282fbd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 09/27] fix: make hash addresses hashable

Defining __eq__ without __hash__ removed the inherited __hash__.
---
 pythagoras/_030_data_portals/hash_addresses.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pythagoras/_030_data_portals/hash_addresses.py b/pythagoras/_030_data_portals/hash_addresses.py
index 40ed84c..fef51a7 100644
--- a/pythagoras/_030_data_portals/hash_addresses.py
+++ b/pythagoras/_030_data_portals/hash_addresses.py
@@ -107,6 +107,10 @@ class HashAddr(SafeStrTuple, PortalAwareClass, ABC):
         """Return self==other. """
         return type(self) == type(other) and self.str_chain == other.str_chain
 
+    def __hash__(self) -> int:
+        """Return hash(self). Equal addresses have equal hashes."""
+        return hash(self.str_chain)
+
     def __ne__(self, other) -> bool:
         """Return self!=other. """
         return not (self == other)
\ No newline at end of file
-- 
2.43.0


From 64e177a8068813c5d261b69bbb45db5946471a5f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 10/27] fix: look for missing values in all portals but the
 address's own

The portal that was skipped was the most recently entered one, so a value
that was only stored there could not be retrieved.
---
 pythagoras/_030_data_portals/value_addresses.py     | 8 ++++++--
 pythagoras/_070_pure_functions/pure_core_classes.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 19cef26..4defc2a 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -86,7 +86,9 @@ class ValueAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            other_portals = DataPortal.get_noncurrent_portals()
+        for portal in other_portals:
             with portal:
                 if self in portal.value_store:
                     data = portal.value_store[self]
@@ -125,7 +127,9 @@ class ValueAddr(HashAddr):
 
     def get_from_noncurrent_portals(self, timeout:Optional[int] = None) -> Any:
         """Retrieve value, referenced by the address, from noncurrent portals"""
-        for portal in DataPortal.get_noncurrent_portals():
+        with self.portal:
+            other_portals = DataPortal.get_noncurrent_portals()
+        for portal in other_portals:
             try:
                 with portal:
                     result = portal.value_store[self]
diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 13fc19e..c8de9ab 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -605,7 +605,9 @@ class PureFnExecutionResultAddr(HashAddr):
 
     @property
     def _ready_in_noncurrent_portals(self) -> bool:
-        for portal in PureCodePortal.get_noncurrent_portals():
+        with self.portal:
+            other_portals = PureCodePortal.get_noncurrent_portals()
+        for portal in other_portals:
             with portal:
                 if self in portal.execution_results:
                     addr = portal.execution_results[self]
-- 
2.43.0


From fc1755f140f121c38f70f6617b5dfeff0090cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 11/27] fix: an address made from an address is ready only if
 its value is stored

---
 pythagoras/_030_data_portals/value_addresses.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythagoras/_030_data_portals/value_addresses.py b/pythagoras/_030_data_portals/value_addresses.py
index 4defc2a..156fa78 100644
--- a/pythagoras/_030_data_portals/value_addresses.py
+++ b/pythagoras/_030_data_portals/value_addresses.py
@@ -40,8 +40,7 @@ class ValueAddr(HashAddr):
                 prefix = data_value_addr.prefix
                 hash_signature = data_value_addr.hash_signature
                 super().__init__(prefix, hash_signature, portal=portal)
-                if portal != data_value_addr.portal and (
-                        not self in portal.value_store):
+                if not self in portal.value_store:
                     data = data_value_addr.get()
                     portal.value_store[self] = data
                 self._ready = True
-- 
2.43.0


From db7d59b66b561808fcb4ffd6f2a28c3401520a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 12/27] fix: remove the runtime id at exit whichever portal was
 created first

---
 pythagoras/_090_swarming_portals/swarming_portals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_090_swarming_portals/swarming_portals.py b/pythagoras/_090_swarming_portals/swarming_portals.py
index f20f66e..405e167 100644
--- a/pythagoras/_090_swarming_portals/swarming_portals.py
+++ b/pythagoras/_090_swarming_portals/swarming_portals.py
@@ -64,8 +64,8 @@ class SwarmingPortal(PureCodePortal):
             # for portal in self.get_noncurrent_portals():
             #     portal.compute_nodes.pkl[address] = runtime_id
 
-            if len(BasicPortal.all_portals) == 1:
-                atexit.register(_clean_runtime_id)
+            atexit.unregister(_clean_runtime_id)
+            atexit.register(_clean_runtime_id)
 
             summary = build_execution_environment_summary()
             address = [self.node_id, "execution_environment"]
-- 
2.43.0


From 9129f23bc5e8604533bc77f1daba968519a7c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 13/27] fix: keep string literals intact when normalising
 source code

---
 .../code_normalizer_implementation.py         | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
index 049084d..eaba683 100644
--- a/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
+++ b/pythagoras/_040_ordinary_functions/code_normalizer_implementation.py
@@ -68,29 +68,17 @@ def __get_normalized_function_source__(
     else:
         assert callable(a_func) or isinstance(a_func, str)
 
-    code_lines = code.splitlines()
-
-    code_no_empty_lines = []
-    for line in code_lines:
-        if set(line)<=set(" \t"):
-            continue
-        code_no_empty_lines.append(line)
-
-    # Fix indent for functions that are defined within other functions;
-    # most frequently it is used for tests.
-    first_line_no_indent = code_no_empty_lines[0].lstrip()
-    n_chars_to_remove = len(code_no_empty_lines[0]) - len(first_line_no_indent)
-    chars_to_remove = code_no_empty_lines[0][:n_chars_to_remove]
-    code_clean_version = []
-    for line in code_no_empty_lines:
-        assert line.startswith(chars_to_remove)
-        cleaned_line = line[n_chars_to_remove:]
-        code_clean_version.append(cleaned_line)
-
-    code_clean_version = "\n".join(code_clean_version)
+    # The code is parsed as is: blank lines and indentation
+    # may be a part of multi-line string literals.
     if a_func_name is None:
-        a_func_name = get_function_name_from_source(code_clean_version)
-    code_ast = ast.parse(code_clean_version)
+        a_func_name = get_function_name_from_source(code)
+    first_line = next(l for l in code.splitlines() if len(l.strip()))
+    is_indented = first_line[0] in " \t"
+    # Functions that are defined within other functions are indented;
+    # most frequently it is used for tests.
+    code_ast = ast.parse("if True:\n" + code if is_indented else code)
+    if is_indented:
+        code_ast.body = code_ast.body[0].body
 
     assert isinstance(code_ast, ast.Module)
     assert isinstance(code_ast.body[0], ast.FunctionDef),(
-- 
2.43.0


From 8f40ba93cd726cdaca6609380427536efb586f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 14/27] fix: calling an autonomous function doesn't change its
 identity

---
 .../_060_autonomous_functions/autonomous_core_classes.py       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index bf2f55c..4f9d4b8 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -261,10 +261,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         import_required -= {"self"} #TODO: replace with ._available_names() ???
         if not self.strictly_autonomous:
             island = portal.known_functions[self.island_name]
-            prev_len_import_required = len(import_required)
             import_required -= set(island)
-            if len(import_required) == prev_len_import_required:
-                self.strictly_autonomous = True
 
         assert len(import_required) ==0, (f"Function {self.fn_name}"
             + f" is not autonomous, it uses global"
-- 
2.43.0


From 2f3b498d9c80876e4db158432d9a482699584188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 15/27] fix: an address of a call remembers its arguments by
 address, not as live objects

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index c8de9ab..cf53e1d 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -548,7 +548,7 @@ class PureFnExecutionResultAddr(HashAddr):
 
     def __init__(self, a_fn: PureFn, arguments:dict[str, Any]):
         assert isinstance(a_fn, PureFn)
-        self._arguments = SortedKwArgs(**arguments)
+        self._arguments = SortedKwArgs(**arguments).pack(a_fn.portal)
         signature = PureFnCallSignature(a_fn, self._arguments)
         tmp = ValueAddr(signature)
         new_prefix = a_fn.fn_name
-- 
2.43.0


From d24284d3bde6233d05e16735509f7c9aaff4cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 16/27] fix: register guards before the functions they guard
 when loading source code

A stored pure function could not be loaded into another process if the name
of one of its guards came after the name of the function in alphabetic order:
the function was registered before its guard was known.
---
 .../process_augmented_func_src.py             | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/process_augmented_func_src.py b/pythagoras/_070_pure_functions/process_augmented_func_src.py
index 16e0b3a..fd3bdb9 100644
--- a/pythagoras/_070_pure_functions/process_augmented_func_src.py
+++ b/pythagoras/_070_pure_functions/process_augmented_func_src.py
@@ -35,6 +35,7 @@ def process_augmented_func_src(
     portal = DataPortal.get_best_portal_to_use(portal)
 
     tree = ast.parse(input_src)
+    to_register = []
     for node in tree.body:
         assert isinstance(node, ast.FunctionDef), (
             "The augmented function code can only consist of"
@@ -58,4 +59,21 @@ def process_augmented_func_src(
             decorator_kwargs["portal"] = portal
 
         func_src = ast.unparse(func_no_decorators) # TODO: add ast passthrough
-        pth.primary_decorators[decorator_name](**decorator_kwargs)(func_src)
\ No newline at end of file
+        to_register.append(
+            (node.name, decorator_name, decorator_kwargs, func_src))
+
+    # A guard must be known before the function it guards is registered.
+    while to_register:
+        unknown_names = {name for name,*_ in to_register}
+        postponed = []
+        for func_info in to_register:
+            name, decorator_name, decorator_kwargs, func_src = func_info
+            guards = set(decorator_kwargs.get("guards") or [])
+            if (guards - {name}) & unknown_names:
+                postponed.append(func_info)
+                continue
+            pth.primary_decorators[decorator_name](**decorator_kwargs)(func_src)
+            unknown_names.discard(name)
+        assert len(postponed) < len(to_register), (
+            "Functions inside augmented function code guard each other.")
+        to_register = postponed
\ No newline at end of file
-- 
2.43.0


From e4cfd9712a87cc7710b0bb18343a7c0750fe6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 17/27] fix: include guards of dependencies and dependencies of
 guards in augmented code

A stored pure function could not be loaded into another process, or not be
executed there, if a function it depends on has guards, or if one of its
guards depends on other functions: their source code was not stored.
---
 pythagoras/_070_pure_functions/pure_core_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index cf53e1d..66d148c 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -230,6 +230,12 @@ class PureFn(AutonomousFn):
         if self.guards is not None:
             full_dependencies += self.guards
         full_dependencies += self.dependencies
+        # Functions may have guards, and guards may need other functions.
+        for dependency in full_dependencies: # grows during the iteration
+            for guard in getattr(island[dependency], "guards", None) or []:
+                island[guard]._complete_fn_registration()
+                full_dependencies += [d for d in island[guard].dependencies
+                    if d not in full_dependencies]
         full_dependencies = sorted(full_dependencies)
 
         for fn_name in full_dependencies:
-- 
2.43.0


From b9d8d49c486f1a575bbb18f179a82091c3b8d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 18/27] fix: captured log records reach an original handler
 only if its level and filters admit them

---
 pythagoras/_810_output_manipulators/output_capturer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_810_output_manipulators/output_capturer.py b/pythagoras/_810_output_manipulators/output_capturer.py
index 0fe8367..952417e 100644
--- a/pythagoras/_810_output_manipulators/output_capturer.py
+++ b/pythagoras/_810_output_manipulators/output_capturer.py
@@ -70,7 +70,8 @@ class OutputCapturer:
             msg = self.format(record)
             self.buffer.write(msg + '\n')
             for handler in self.original_handlers:
-                handler.emit(record)
+                if record.levelno >= handler.level:
+                    handler.handle(record)
 
     def __init__(self):
         """ Initialize the OutputCapturer object.
-- 
2.43.0


From 9c352d7eaff34ffdf964fc8d4e25f14275e1e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 19/27] fix: a call whose function or arguments can't be loaded
 can't be executed

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 66d148c..68717da 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -795,7 +795,11 @@ class PureFnExecutionResultAddr(HashAddr):
         guards
         """
         with self.portal:
-            return self.function.can_be_executed(**self.kwargs)
+            try:
+                function, kwargs = self.function, self.kwargs
+            except Exception: # they can't be loaded here, at least not yet
+                return False
+            return function.can_be_executed(**kwargs)
 
 
     @property
-- 
2.43.0


From 8b73e588dafc52e4432c9a7c2736537f9919d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 20/27] fix: initialize() resets the default local portal too

---
 pythagoras/_110_top_level_API/top_level_API.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_110_top_level_API/top_level_API.py b/pythagoras/_110_top_level_API/top_level_API.py
index 2fdc782..593f058 100644
--- a/pythagoras/_110_top_level_API/top_level_API.py
+++ b/pythagoras/_110_top_level_API/top_level_API.py
@@ -5,7 +5,7 @@ from pythagoras import SwarmingPortal, BasicPortal, DefaultLocalPortal
 
 
 def initialize(root_dict) -> pd.DataFrame: #TODO: refactor
-    BasicPortal._clear_all()
+    DefaultLocalPortal._clear_all()
     portal = SwarmingPortal(root_dict=root_dict, n_background_workers=3)
     portal.__enter__()
     return portal.describe()
-- 
2.43.0


From f0ffd2b012f97924990c938de9704f840b16bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 21/27] fix: make every copy of a registered pure function
 executable

---
 .../_060_autonomous_functions/autonomous_core_classes.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
index 4f9d4b8..2b0bd79 100644
--- a/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
+++ b/pythagoras/_060_autonomous_functions/autonomous_core_classes.py
@@ -239,8 +239,7 @@ class AutonomousFn(SafeFn, PortalAwareClass):
         assert self.fn_source_code == island[fn_name].fn_source_code
 
         if island[fn_name]._fn_fully_registered:
-            if type(self) == AutonomousFn:
-                self.update(island[fn_name])
+            self.update(island[fn_name])
             return
 
         SafeFn._complete_fn_registration(self)
-- 
2.43.0


From 17d14d2f047faa8a97b8931f737a9901939ed9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 22/27] fix: recognise the safe decorator as one of the
 library's

---
 pythagoras/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythagoras/__init__.py b/pythagoras/__init__.py
index 3351ed5..3470660 100644
--- a/pythagoras/__init__.py
+++ b/pythagoras/__init__.py
@@ -56,6 +56,7 @@ primary_decorators = {d.__name__:d for d in [
     ]}
 all_decorators = {d.__name__:d for d in [
     ordinary
+    , safe
     , autonomous
     , strictly_autonomous
     , pure
-- 
2.43.0


From 5df4624b796b6d6546d5857b66573823aa3e1436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 23/27] fix: report names read in decorators and defaults of
 nested functions

---
 .../_060_autonomous_functions/names_usage_analyzer.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index b258b18..c78918c 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -30,10 +30,12 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         if self.func_nesting_level == 0:
             self.names.function = node.name
             self.func_nesting_level += 1
+            self._visit_decorators_and_defaults(node)
             self._bind_arguments(node.args)
             self.generic_visit(node)
             self.func_nesting_level -= 1
         else:
+            self._visit_decorators_and_defaults(node)
             nested = NamesUsageAnalyzer()
             nested.visit(node)
             self._merge_nested(nested)
@@ -44,6 +46,13 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
 
     visit_AsyncFunctionDef = visit_FunctionDef
 
+    def _visit_decorators_and_defaults(self, node):
+        """Visit what is evaluated outside the function, without its arguments."""
+        for expr in [*node.decorator_list, *node.args.defaults
+                , *node.args.kw_defaults]:
+            if expr is not None:
+                self.visit(expr)
+
     def _bind_arguments(self, args):
         for arg in args.posonlyargs + args.args + args.kwonlyargs:
             self.names.local |= {arg.arg}
-- 
2.43.0


From bd4516740197b05fbf423ab8d63c1cca0c85b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 24/27] fix: let nested functions of autonomous functions call
 themselves

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index c78918c..aaf88da 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -36,11 +36,11 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
             self.func_nesting_level -= 1
         else:
             self._visit_decorators_and_defaults(node)
+            self.names.local |= {node.name}
+            self.names.accessible |= {node.name}
             nested = NamesUsageAnalyzer()
             nested.visit(node)
             self._merge_nested(nested)
-            self.names.local |= {node.name}
-            self.names.accessible |= {node.name}
             # self.names.imported is not changing
             # self.n_yelds is not changing
 
-- 
2.43.0


From 494ac504fa0f9546e0993f7188d3a1b9d8556ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 25/27] fix: report names that a comprehension goes over and
 binds

---
 pythagoras/_060_autonomous_functions/names_usage_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
index aaf88da..f403e3d 100644
--- a/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
+++ b/pythagoras/_060_autonomous_functions/names_usage_analyzer.py
@@ -131,6 +131,8 @@ class NamesUsageAnalyzer(ast.NodeVisitor):
         self.generic_visit(node)
 
     def visit_comprehension(self, node):
+        if isinstance(node, ast.comprehension):
+            self.visit(node.iter) # it is read before the targets are bound
         if isinstance(node.target, (ast.Tuple, ast.List)):
             all_targets =node.target.elts
         else:
-- 
2.43.0


From a81ce7b660ee9763df6c708d16b8176e27c8479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:13 +0000
Subject: [PATCH 26/27] fix: give guards the arguments of a call made through
 its address, not their addresses

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index 68717da..f35d1cc 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -430,8 +430,8 @@ class PureFn(AutonomousFn):
                 conduct_consistency_checks = True
             with PureFnExecutionFrame(output_address) as frame:
                 output_address.request_execution()
-                assert self.can_be_executed(**kwargs)
                 unpacked_kwargs = SortedKwArgs(**packed_kwargs).unpack()
+                assert self.can_be_executed(**unpacked_kwargs)
                 result = super().execute(**unpacked_kwargs)
                 result_addr = ValueAddr(result)
                 frame.register_execution_result(result_addr)
-- 
2.43.0


From 7a06ec8190d49639b78f18faa60d7b1f6a43d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:35 +0000
Subject: [PATCH 27/27] fix: a copy of a guarded pure function keeps the guards

---
 pythagoras/_070_pure_functions/pure_core_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythagoras/_070_pure_functions/pure_core_classes.py b/pythagoras/_070_pure_functions/pure_core_classes.py
index f35d1cc..79b8a9a 100644
--- a/pythagoras/_070_pure_functions/pure_core_classes.py
+++ b/pythagoras/_070_pure_functions/pure_core_classes.py
@@ -141,9 +141,10 @@ class PureFn(AutonomousFn):
                  , guards: SupportingFuncs = None
                  , portal: PureCodePortal | None = None):
         super().__init__(a_fn, island_name = island_name, portal = portal)
+        if guards is None and isinstance(a_fn, PureFn):
+            guards = a_fn.guards # a copy is guarded as the original
         self.guards = self._preprocess_guards(guards)
         self._augmented_source_code = None
-        #TODO: decide how to handle guards if a_fn is PureFn
         self.call_stack = []
         if type(self) == PureFn:
             self._begin_fn_registration()
-- 
2.43.0

