From 95028cad24884338eede2514ab60d176c2f4b8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 01/53] fix: hygienic capture lookup returned another capture's
 value when a bytes object's id was reused

---
 mcpyrate/quotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..5507500 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -335,8 +335,10 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep also `frozen_value` itself alive, so that its `id` cannot be recycled for another capture.
+        _lookup_cache[cachekey] = (pickle.loads(frozen_value), frozen_value)
+    value, _ = _lookup_cache[cachekey]
+    return value
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From ab048d7d14fb92ef988a8c921b2cf3c2066f0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 02/53] fix: quasiquotes: splice `a[lst]` at any depth; accept
 non-AST items in AST list fields

---
 mcpyrate/quotes.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 5507500..cf0c6b1 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -220,16 +220,15 @@ def splice_ast_literals(tree, filename):
                     # Discard the `SpliceNodes` marker and splice the `list` that was contained in it.
                     newthing.extend(item.body)
                 else:
-                    doit(item)
+                    # Some `list` fields have also items that are not AST nodes, e.g. the
+                    # `None` in the `keys` of `{**d}`, or the `str` in `Global.names`.
+                    if isinstance(item, (list, ast.AST)):
+                        doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
+                if isinstance(value, (list, ast.AST)):
                     doit(value)
         else:
             raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
-- 
2.43.0


From e5880f0b84bbce03d62496fe5c98a5646494682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 03/53] fix: split_futureimports: last statement being a
 future-import; empty docstring

---
 mcpyrate/coreutils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..88646bb 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,19 +266,16 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:
         docstring, *body = body
         docstring = [docstring]
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From e0dace8e5f63201f0e058ae749aa5fcb4afe3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 04/53] fix: getdocstring: only a string is a docstring, other
 constants are not

---
 mcpyrate/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..f37a83b 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,8 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            if isinstance(docstring_node.value, str):  # not e.g. a bare number or `...`
+                return docstring_node.value
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From 1b6617d0b7337a6ec7c0046762e685ee72270e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 05/53] fix: temporary_module: remove also a module with an
 autogenerated name

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..97c1ced 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # autogenerated if not given
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From 686736cee63abc08c95a89479c88792c840f13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 06/53] fix: match_syspath: match whole path components,
 deepest resolved entry first

---
 mcpyrate/coreutils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 88646bb..a33c533 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -57,15 +57,18 @@ def match_syspath(filename):
 
     If `filename` is not under any directory in `sys.path`, raises `ValueError`.
     """
-    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())
+    absolute_path = pathlib.Path(filename).expanduser().resolve()
+    absolute_filename = str(absolute_path)
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    # We must resolve first, because `sys.path` may have relative paths or symlinks.
+    def sortkey(p):
+        return -len(p.parts), str(p)
+    root_paths = [pathlib.Path(p).expanduser().resolve() for p in sys.path]
+    for root_path in sorted(root_paths, key=sortkey):
+        # Compare whole path components, so that e.g. `/some/dir` does not match `/some/directory/mod.py`.
+        if root_path == absolute_path or root_path in absolute_path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From e050d463848b6a40dd1595a6e4fde32dc0664ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 07/53] fix: splice_statements: a single statement as template

---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..691c93c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From 9a4623546e796dca7665846c1a55c3a8265ac309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 08/53] fix: splice_dialect: combined docstring must be a
 statement

---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 691c93c..9ba80a8 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -266,7 +266,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=new_doc),
+                                                                           user_docstring[0])),
                                           user_docstring[0])
         docstring = [new_docstring]
     else:
-- 
2.43.0


From 0fcfb0e24c1fdf311e741e95a1f65e348c0e2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 09/53] fix: MacroCollector rejected regular code that
 subscripts a function call

---
 mcpyrate/expander.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..cfb289f 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -440,8 +440,11 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
+            # Now we know it's a macro invocation, so we can validate the parenthesis syntax to pass arguments.
+            macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
             key = (macroname, "expr")
             if key not in self._seen:
                 self.collected.append(key)
-- 
2.43.0


From 146be5e12363074dc0252f86a04179341e1dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 10/53] fix: expand decorator macros also on async functions,
 as documented

---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index cfb289f..8f5fae2 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, asyncfunctiondef):
+        return self._visit_Decorated(asyncfunctiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -482,6 +485,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, asyncfunctiondef):
+        self._visit_Decorated(asyncfunctiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From e1fc9254d53cb4a22043eee55434bf0a68182f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 11/53] fix: restore sys.modules also when multi-phase
 expansion fails

---
 mcpyrate/multiphase.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..dfbda4e 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -374,6 +374,23 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
+    try:
+        return _expand_phases(tree, module, n, debug, filename=filename, self_module=self_module, dexpander=dexpander)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module,
+        # also if the compile failed
+        if original_module is not None:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
+
+def _expand_phases(tree, module, n, debug, *, filename, self_module, dexpander):
+    """The phase loop of `multiphase_expand`, which see. `module` is the temporary module; `n` is the highest phase."""
+    c, CS = setcolor, ColorScheme
+
     for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
@@ -402,13 +419,4 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module)
 
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
     return expansion
-- 
2.43.0


From 1069356acaba70f643d688c432ad04ca49656de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 12/53] fix: a source dialect-import ends at the end of its
 line (a later dialect-import was swallowed, or an earlier one run again)

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..29e94dd 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\\n]+)\s*$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 0023105d59a23695d028f73df756694097e03f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 13/53] fix: import of a module whose surface syntax, given by
 a source-transforming dialect, is not Python

---
 mcpyrate/importer.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..919ee64 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -8,6 +8,7 @@ from importlib.machinery import SourceFileLoader
 import importlib.util
 import os
 import pickle
+import re
 import sys
 import tokenize
 
@@ -94,6 +95,18 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
+_importline = re.compile(r"^from\s+\S+\s+import\s+(?:macros|dialects)\s*,.*$", flags=re.MULTILINE)
+def scan_unparseable(source, *, filename):
+    """Return an `ast.Module` of the single-line macro- and dialect-imports in `source`, which is not Python."""
+    body = []
+    for match in _importline.finditer(source):
+        try:
+            body.extend(ast.parse(match.group(0), filename=filename).body)
+        except SyntaxError:
+            pass
+    return ast.Module(body=body, type_ignores=[])
+
+
 def path_stats(path, _stats_cache=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -155,7 +168,15 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            source = sourcefile.read()
+        try:
+            tree = ast.parse(source, filename=path)
+        except SyntaxError:
+            # A dialect with a source transformer may introduce new surface syntax. Its dialect-import
+            # must be on a single line, starting at the first column, so we can find it anyway.
+            tree = scan_unparseable(source, filename=path)
+            if not any(ismacroimport(stmt, magicname="dialects") for stmt in tree.body):
+                raise
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From 507c0a93750aacc56ec44df18856353ab5f6a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 14/53] fix: unparser: f-strings with literal braces,
 backslashes or control characters, or formatting a dict or set

---
 mcpyrate/unparser.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..c4e590b 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -843,7 +843,16 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
-        self.dispatch(t.value)
+        with io.StringIO() as output:
+            f, self.f = self.f, output
+            try:
+                self.dispatch(t.value)
+            finally:
+                self.f = f
+            value = output.getvalue()
+        if value.startswith("{"):  # a dict or set; "{{" would mean a literal brace
+            self.write(" ")
+        self.write(value)
         if t.conversion == 115:
             self.write(c("!s"))
         elif t.conversion == 114:
@@ -856,7 +865,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, is_format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -864,9 +873,12 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, is_format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            s = repr('"' + s)[2:-1]  # the double quote forces `repr` to use single quotes
+            if is_format_spec:  # doubling a brace means nothing here
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From 20e9530cbbb99394b195702b3fb8f0edd57351b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 15/53] fix: unparser: dictionary unpacking `{**d}`

---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index c4e590b..9656ae4 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,8 +733,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, `{**d}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From d21f7bda5daf9e2491e6aa20e9783242e0bf203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 16/53] fix: unparser: empty tuple as a subscript

---
 mcpyrate/unparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 9656ae4..c062a24 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -898,7 +898,7 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        if type(t.slice) is ast.Tuple and t.slice.elts:  # but `a[()]` needs them
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From 1873cc3f37f5899337b2b49e686c2aa3b62ed737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 17/53] fix: unparser: type parameters of functions and classes

---
 mcpyrate/unparser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index c062a24..251c718 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1159,12 +1162,15 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
+        self.__type_params_helper(t)
+        self.write(" = ")
+        self.dispatch(t.value)
+
+    def __type_params_helper(self, t):  # also generic functions and classes have these
+        if getattr(t, "type_params", None):  # up to Python 3.11, or macro-generated nodes, might not have it
             self.write("[")
             interleave(lambda: self.write(", "), self.dispatch, t.type_params)
             self.write("]")
-        self.write(" = ")
-        self.dispatch(t.value)
 
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
-- 
2.43.0


From 120ba273c407efd72132e8f959f384a92ae82929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 18/53] fix: unparser: top-level `Expression` node

---
 mcpyrate/unparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 251c718..6b34e7e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,10 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)  # in an `Expression`, not a list
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 56f3d222213b17ce6dc1ed9811febc7b155f5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 19/53] fix: unparser: a tuple as a context manager expression

---
 mcpyrate/unparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 6b34e7e..5cb94b2 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1042,7 +1042,13 @@ class Unparser:
             self.write(self.maybe_colorize_python_keyword(" as ") + t.asname)
 
     def _withitem(self, t):
+        # `with (a, b):` means `with a, b:`, so a tuple needs another set of parentheses.
+        bare_tuple = type(t.context_expr) is ast.Tuple and not t.optional_vars
+        if bare_tuple:
+            self.write("(")
         self.dispatch(t.context_expr)
+        if bare_tuple:
+            self.write(")")
         if t.optional_vars:
             self.write(self.maybe_colorize_python_keyword(" as "))
             self.dispatch(t.optional_vars)
-- 
2.43.0


From 7b37474c84dece0743566c31516e161d7d26d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 20/53] fix: unparser: negative and complex numbers in patterns

---
 mcpyrate/unparser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 5cb94b2..010310c 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1087,7 +1087,19 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__pattern_literal_helper(t.value)
+
+    def __pattern_literal_helper(self, t):
+        # Inside a negative or complex number in a pattern, parentheses are not allowed.
+        if type(t) is ast.UnaryOp and type(t.op) is ast.USub:
+            self.write("-")
+            self.__pattern_literal_helper(t.operand)
+        elif type(t) is ast.BinOp:
+            self.__pattern_literal_helper(t.left)
+            self.write(" " + self.binop[t.op.__class__.__name__] + " ")
+            self.__pattern_literal_helper(t.right)
+        else:
+            self.dispatch(t)
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1108,7 +1120,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__pattern_literal_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
-- 
2.43.0


From a676b1668cb59aa23dd886a87e12c9f2a5a9a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 21/53] fix: unparser: as-pattern or or-pattern inside an
 or-pattern

---
 mcpyrate/unparser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 010310c..de12582 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1166,7 +1166,15 @@ class Unparser:
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        def write_alternative(p):
+            # Here `|` binds more tightly than `as`, and a nested or-pattern is not the same as a longer one.
+            parens = type(p) is ast.MatchOr or (type(p) is ast.MatchAs and p.pattern is not None)
+            if parens:
+                self.write("(")
+            self.dispatch(p)
+            if parens:
+                self.write(")")
+        interleave(lambda: self.write(" | "), write_alternative, t.patterns)
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From 6f8755191ddbdcfbe401b7eea35aac810eca644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 22/53] fix: rename: names in mapping and class patterns, and
 type parameters

---
 mcpyrate/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index f37a83b..dc01bd3 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,7 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,7 +142,17 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:  # `**rest`
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:  # attribute names
+                for j in range(len(tree.kwd_attrs)):
+                    if tree.kwd_attrs[j] == oldname:
+                        tree.kwd_attrs[j] = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             return self.generic_visit(tree)
     return Renamer().visit(tree)
 
-- 
2.43.0


From 1ae9dbb539f8d91b72e5b0c89d5a252bf2dfca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 23/53] fix: nesting level (e.g. of quasiquotes) was shared
 between threads

---
 mcpyrate/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index dc01bd3..bb1ea59 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -7,6 +7,7 @@ __all__ = ["gensym", "scrub_uuid", "flatten", "rename", "extract_bindings", "get
 
 import ast
 from contextlib import contextmanager
+import threading
 import uuid
 
 from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
@@ -293,7 +294,7 @@ def format_context(tree, *, n=5):
 
 # --------------------------------------------------------------------------------
 
-class NestingLevelTracker:
+class NestingLevelTracker(threading.local):  # each thread has its own nesting level
     """Track the nesting level in a set of co-operating, related macros.
 
     Useful for implementing macros that are syntactically only valid inside the
-- 
2.43.0


From 2862031c3c8adaf1c7f7abdb7e5774ab8d1a90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 24/53] fix: walkers: a temporarily replaced state that is
 empty was ignored

---
 mcpyrate/walkers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..d650e3c 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -137,8 +137,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:  # an empty state is also a state
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +147,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +178,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:  # an empty state is also a state
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +190,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From 8048ba0c95b15a3fb39b52e3905c3609c8d748c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 25/53] fix: fix_ctx: the same node instance in several
 positions requiring different contexts

---
 mcpyrate/astfixers.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..73adbb1 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -5,7 +5,7 @@ __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 expr, iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
@@ -22,19 +22,36 @@ class _CtxFixer(walkers.ASTTransformer):
 
     def transform(self, tree):
         tree = self._fix_one(tree)
+        if self.copy_seen_nodes:
+            self._copy_seen_children(tree)
         self._setup_subtree_contexts(tree)
         return self.generic_visit(tree)
 
     def _fix_one(self, tree):
         """Fix one `ctx` attribute, using the currently active ctx class."""
         if "ctx" in type(tree)._fields:
-            if self.copy_seen_nodes:
-                # Shallow-copy `tree` if already seen. This mode is used in the
-                # global postprocess pass. Note only nodes whose `ctx` we have
-                # already updated are considered seen.
-                if id(tree) in self._seen:
-                    tree = copy(tree)
             tree.ctx = self.state.ctxclass()
+        return tree
+
+    def _copy_seen_children(self, tree):
+        """Shallow-copy any expression directly below `tree` that has already appeared elsewhere.
+
+        This mode is used in the global postprocess pass. We must do this already before setting up
+        the contexts for the subtrees, because `withstate` identifies a subtree by its `id`.
+        """
+        for fieldname, value in iter_fields(tree):
+            if isinstance(value, list):
+                value[:] = [self._copy_if_seen(elt) for elt in value]
+            elif isinstance(value, expr):
+                setattr(tree, fieldname, self._copy_if_seen(value))
+
+    def _copy_if_seen(self, tree):
+        if isinstance(tree, expr):
+            if id(tree) in self._seen:
+                tree = copy(tree)
+                for fieldname, value in iter_fields(tree):
+                    if isinstance(value, list):  # e.g. the `elts` of a `Tuple`
+                        setattr(tree, fieldname, value[:])
             self._seen.add(id(tree))
         return tree
 
-- 
2.43.0


From c2d51093cfecc1a8c5a66bb8265fcaffee8b01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 26/53] fix: fix_locations: reference node without end position
 (patterns and type parameters need one to compile)

---
 mcpyrate/astfixers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 73adbb1..b16a5ac 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -165,11 +165,12 @@ def fix_locations(tree, reference_node, *, mode):
     def update_lineno(tree, lineno, end_lineno):
         tree.lineno = lineno
         if "end_lineno" in tree._attributes:
-            tree.end_lineno = end_lineno
+            # Patterns and type parameters require the end position, even if the reference does not have it.
+            tree.end_lineno = end_lineno if end_lineno is not None else lineno
     def update_col_offset(tree, col_offset, end_col_offset):
         tree.col_offset = col_offset
         if "end_col_offset" in tree._attributes:
-            tree.end_col_offset = end_col_offset
+            tree.end_col_offset = end_col_offset if end_col_offset is not None else col_offset
 
     def _fix(tree, lineno, col_offset, end_lineno, end_col_offset):
         if tree is None:
-- 
2.43.0


From 6a0c0055e0db3d9f53ccb411f7a6cf2a1c1e7b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 27/53] fix: splice_dialect: user code with only a docstring
 and imports

---
 mcpyrate/splicing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 9ba80a8..41a2a51 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -309,6 +309,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     body, user_dialect_imports = extract_macroimports(body, magicname="dialects")
     body, user_macro_imports = extract_macroimports(body)
 
+    if not body:  # the user code consists only of things that go to the beginning of the module
+        body = [fix_locations(ast.Pass(), srcloc_dummynode, mode="reference")]
     finalbody = splice_statements(body, template, tag)
     return (docstring +
             futureimports +
-- 
2.43.0


From 1d7f06b5077d8c837e2bfab8d976bcec279f7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 28/53] fix: splice_dialect: future-imports in both the
 template and the user code

---
 mcpyrate/splicing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 41a2a51..579ce22 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -273,6 +273,9 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     else:
         docstring = user_docstring or template_docstring
 
+    # Python rejects a future-import whose line number is after that of the last future-import.
+    if user_futureimports:
+        fix_locations(template_futureimports, user_futureimports[0], mode="overwrite")
     futureimports = template_futureimports + user_futureimports
 
     def extract_magic_all(tree):
-- 
2.43.0


From b39a3357cb5b99bf4b23e39bd558079c4000eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 29/53] fix: scrub_uuid: an uuid has only hexadecimal digits,
 no sign, prefix or white space

---
 mcpyrate/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index bb1ea59..3b092cd 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -58,11 +58,7 @@ def scrub_uuid(string):
     if idx != -1:
         maybe_uuid = string[(idx + 1):]
         if len(maybe_uuid) == 32:
-            try:
-                _ = int(maybe_uuid, base=16)
-            except ValueError:
-                pass
-            else:  # yes, it was an uuid
+            if all(c in "0123456789abcdefABCDEF" for c in maybe_uuid):  # yes, it was an uuid
                 return string[:idx]
     return string
 
-- 
2.43.0


From a472734960b1d1f61100947c0e39f8e3259506c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 30/53] fix: pycachecleaner: symbolic links to directories

---
 mcpyrate/pycachecleaner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..d25ec4f 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -17,7 +17,8 @@ def getpycachedirs(path):
 
     paths = []
     for root, dirs, files in os.walk(path):
-        if "__pycache__" in dirs:
+        # A symlink is not ours to clean; its target may be anywhere.
+        if "__pycache__" in dirs and not os.path.islink(os.path.join(root, "__pycache__")):
             paths.append(os.path.join(root, "__pycache__"))
     return paths
 
@@ -47,7 +48,10 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                if os.path.islink(os.path.join(root, x)):
+                    os.unlink(os.path.join(root, x))
+                else:
+                    os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From 1e0a21155ed6aecab48b5e5c6f2996cb5360e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 31/53] fix: a macro-import cache file with foreign contents is
 invalid, not an error

---
 mcpyrate/importer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 919ee64..46c9c9e 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -152,14 +152,13 @@ def path_stats(path, _stats_cache=None):
         with open(macroimport_cache_path, "rb") as importcachefile:
             data = pickle.load(importcachefile)
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
+            macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
+            has_relative_macroimports = data["has_relative_macroimports"]
             macroimport_cache_valid = True
     except Exception:
         pass
 
-    if macroimport_cache_valid:
-        macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
-        has_relative_macroimports = data["has_relative_macroimports"]
-    else:
+    if not macroimport_cache_valid:
         # This can be slow, the point of `.pyc` is to avoid the parse-and-compile cost.
         # We do save the macro-expansion cost, though, and that's likely much more expensive.
         #
-- 
2.43.0


From 8c8db182e8092802738de95cddef89430937e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 32/53] fix: an exception from a generator macro was reported
 as a wrong return type, without its cause

---
 mcpyrate/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index ceaf117..16d1715 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -252,10 +252,16 @@ class BaseMacroExpander(NodeTransformer):
             expansion = self._apply_macro(macro, tree, kw, macroname, target)
 
             # Convert possible iterable result to `list`, then typecheck macro output.
-            try:
-                if expansion is not None and not isinstance(expansion, AST):
-                    expansion = list(expansion)
+            # A macro that is a generator runs here, so an exception from it is the macro's own.
+            if expansion is not None and not isinstance(expansion, AST):
+                try:
+                    iterator = iter(expansion)
+                except TypeError:  # not iterable, caught by the typecheck below
+                    pass
+                else:
+                    expansion = list(iterator)
 
+            try:
                 if isinstance(expansion, AST) or expansion is None:
                     pass  # ok
                 elif isinstance(expansion, list):
-- 
2.43.0


From 2ec7a4bebbffc19e656c99c0290082ed667dfa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 33/53] fix: complex numbers could not be quoted or unquoted

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index cf0c6b1..1d418e1 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -715,7 +715,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From 0d3fa691f7d16d1868aed084a64694903168979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 34/53] fix: hygienic captures of equal values in the same code
 shared one object

---
 mcpyrate/quotes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 1d418e1..0c30b2b 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -18,6 +18,7 @@ __all__ = ["capture_value", "capture_macro", "capture_as_macro",
 
 import ast
 import copy
+import itertools
 import pickle
 import sys
 
@@ -258,6 +259,7 @@ def ast_tuple(nodes):
     return ast.Tuple(elts=lst)
 
 
+_capture_counter = itertools.count()
 def capture_value(value, name):
     """Hygienically capture a run-time value. Used by `h[]`.
 
@@ -296,7 +298,12 @@ def capture_value(value, name):
     # Putting these considerations together, we pickle the value, causing a copy
     # and serialization.
     #
-    frozen_value = pickle.dumps(value)
+    #
+    # The Python compiler merges equal constants, so to let each capture remain
+    # independent also when some other capture (in the same module) has frozen
+    # an equal value, we must make the frozen data unique. Unpickling ignores
+    # any bytes past the end of the pickled data.
+    frozen_value = pickle.dumps(value) + f"#{next(_capture_counter)}".encode()
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
-- 
2.43.0


From 0172cbae14a9923f51c0e493fbd9fcd9839d9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 35/53] fix: detecting hygienic captures crashed on other calls
 to the same functions

---
 mcpyrate/quotes.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 0c30b2b..0d69adf 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -507,19 +507,17 @@ def is_captured_value(tree):
 
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
-    # `capture_value` and `lookup_value`.
+    # `capture_value` and `lookup_value`. If the format does not match, it is
+    # some other call to these functions, not generated by the quasiquote system.
     if callee.attr == "capture_value":  # the call is `capture_value(..., name)`
-        name_node = tree.args[1]
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
-        return (name_node.value, None)  # the value hasn't been captured yet
-    elif callee.attr == "lookup_value":  # the call is `lookup_value(key)`
-        key_node = tree.args[0]
-        name_node, frozen_value_node = key_node.elts
-        assert type(name_node) is ast.Constant and type(name_node.value) is str
-        assert type(frozen_value_node) is ast.Constant and type(frozen_value_node.value) is bytes
-        return (name_node.value, frozen_value_node.value)
-
-    assert False  # cannot happen
+        if len(tree.args) != 2:
+            return False
+        key = _extract_constants([tree.args[1]], [str])
+        return key and (key[0], None)  # the value hasn't been captured yet
+    else:  # callee.attr == "lookup_value":  # the call is `lookup_value(key)`
+        if len(tree.args) != 1 or type(tree.args[0]) is not ast.Tuple:
+            return False
+        return _extract_constants(tree.args[0].elts, [str, bytes])
 
 
 def is_captured_macro(tree):
@@ -604,12 +602,18 @@ def is_captured_macro(tree):
     # This AST destructuring and constant extraction must match the format
     # of the argument lists produced by the quasiquote system for calls to
     # `lookup_macro`.
-    key_node = tree.args[0]  # the call is `lookup_macro(key)`
-    name_node, unique_name_node, frozen_macro_node = key_node.elts
-    assert type(name_node) is ast.Constant and type(name_node.value) is str
-    assert type(unique_name_node) is ast.Constant and type(unique_name_node.value) is str
-    assert type(frozen_macro_node) is ast.Constant and type(frozen_macro_node.value) is bytes
-    return (name_node.value, unique_name_node.value, frozen_macro_node.value)
+    if len(tree.args) != 1 or type(tree.args[0]) is not ast.Tuple:  # the call is `lookup_macro(key)`
+        return False
+    return _extract_constants(tree.args[0].elts, [str, str, bytes])
+
+
+def _extract_constants(nodes, types):
+    """Return the values of constant `nodes` as a `tuple`, if their types match `types`; else return `False`."""
+    if len(nodes) != len(types):
+        return False
+    if not all(type(node) is ast.Constant and type(node.value) is T for node, T in zip(nodes, types)):
+        return False
+    return tuple(node.value for node in nodes)
 
 
 def _is_mcpyrate_quotes_reference(tree):
@@ -630,7 +634,7 @@ def _is_mcpyrate_quotes_reference(tree):
     if type(moduleref) is ast.Name and moduleref.id == "mcpyrate":
         return "direct"  # ok, direct reference
     elif (type(moduleref) is ast.Call and type(moduleref.func) is ast.Name and
-          moduleref.func.id == "__import__" and type(moduleref.args[0]) is ast.Constant and
+          moduleref.func.id == "__import__" and moduleref.args and type(moduleref.args[0]) is ast.Constant and
           moduleref.args[0].value == "mcpyrate.quotes"):
         return "import"  # ok, reference by import
     else:
-- 
2.43.0


From 80b6b60ec41c450cc7f56c91a96bf84f3499f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 36/53] fix: hygienic captures broke where the use site has a
 variable named globals

---
 mcpyrate/coreutils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index a33c533..faadf9a 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -229,10 +229,6 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
     if not force_import:
         mcpyrate_module = ast.Name(id="mcpyrate")
     else:
-        globals_call = ast.Call(ast.Name(id="globals"),
-                                [],
-                                [])
-
         if submodule_dotted_name:
             modulename_to_import = f"mcpyrate.{submodule_dotted_name}"
         else:
@@ -240,7 +236,7 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
 
         import_call = ast.Call(ast.Name(id="__import__"),
                                [ast.Constant(value=modulename_to_import),
-                                globals_call,  # globals (used for determining context)
+                                ast.Constant(value=None),  # globals (used only for relative imports)
                                 ast.Constant(value=None),  # locals (unused)
                                 ast.Tuple(elts=[]),  # fromlist
                                 ast.Constant(value=0)],  # level
-- 
2.43.0


From e4b1cad9ef7529afcfe8446de25a584bccfd89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 37/53] fix: block mode expandsq and expand1sq always raised
 TypeError

---
 mcpyrate/metatools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..c3d7e36 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -187,6 +187,9 @@ def expand1sq(tree, *, syntax, **kw):
     kw = dict(kw)
     if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
         kw["optional_vars"] = None
+    if type(tree) is ast.Assign:  # `with expand1sq as quoted` -> `quoted = ...`; the value is the quoted code
+        tree.value = expand1s(tree.value, syntax="expr", **kw)
+        return tree
     return expand1s(tree, syntax=syntax, **kw)
 
 
@@ -215,6 +218,9 @@ def expandsq(tree, *, syntax, **kw):
     kw = dict(kw)
     if "optional_vars" in kw:
         kw["optional_vars"] = None
+    if type(tree) is ast.Assign:  # `with expandsq as quoted` -> `quoted = ...`; the value is the quoted code
+        tree.value = expands(tree.value, syntax="expr", **kw)
+        return tree
     return expands(tree, syntax=syntax, **kw)
 
 
-- 
2.43.0


From eaf7841582aaed624e42fdc6ed757aff7e101b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 38/53] fix: expand_first rejected q[h[macroname]] arguments
 and the names of identifier macros

---
 mcpyrate/metatools.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index c3d7e36..6be7302 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -48,7 +48,7 @@ from .astfixers import fix_locations  # noqa: F401, used in macro output.
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
-from .quotes import astify, capture_value, q, unastify
+from .quotes import Capture, astify, capture_value, q, unastify
 from .unparser import unparse_with_fallbacks
 from .utils import extract_bindings
 
@@ -509,7 +509,22 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # We must use the full `bindings`, not only those of the quasiquote operators
     # (see `mcpyrate.quotes._expand_quasiquotes`), so that the expander recognizes
     # which hygienic captures are macros.
-    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
+    #
+    # A bare macro name is left alone. It would expand, if it is the name of an identifier macro.
+    def resolve(arg):
+        if type(arg) is ast.Name:
+            return arg
+        arg = MacroExpander(expander.bindings, filename=expander.filename).visit(arg)
+        # The output of `q[h[somemacro]]` is code that, at run time, evaluates to the unique name
+        # the captured macro is bound to in the expander. Extract the name itself.
+        try:
+            quoted = unastify(arg)
+        except Exception:  # not quasiquoted code, or it contains unquoted values
+            return arg
+        if type(quoted) is Capture and type(quoted.body) is ast.Name:
+            return quoted.body
+        return arg
+    args = [resolve(arg) for arg in args]
 
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
-- 
2.43.0


From 5de3432cf8c5029aa482fbaeffa00b7beebb5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 39/53] fix: step_expansion in dump mode crashed on macros that
 return None, a tuple or a generator

---
 mcpyrate/debug.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..a3707f8 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -21,6 +21,16 @@ from .utils import NestingLevelTracker, format_macrofunction, format_context
 from .walkers import ASTVisitor
 
 
+def _dump_with_fallbacks(tree):
+    """Dump `tree`, which can be anything that a macro is allowed to return."""
+    if isinstance(tree, tuple):
+        tree = list(tree)
+    try:
+        return dump(tree, include_attributes=True, color=True)
+    except TypeError:  # not an AST (e.g. a `None`, or a generator)
+        return repr(tree)
+
+
 _step_expansion_level = NestingLevelTracker()
 
 @parametricmacro
@@ -91,7 +101,7 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            formatter = _dump_with_fallbacks
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From 78490f0cc2ce2ef34b3e8f8ed56effd3811b30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 40/53] fix: macro-imports from missing submodules, namespace
 packages and non-source modules crashed the importer

---
 mcpyrate/importer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 46c9c9e..e3af68c 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -223,11 +223,20 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
-            origin = spec.origin
-            stats = path_stats(origin, _stats_cache)
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except (ModuleNotFoundError, ValueError):
+            # The parent package is missing (or is not a package); or this is a dynamically created module.
+            # If this is an error, the macro expander will report it, with the use site.
+            continue
+        if not spec:  # self-macro-imports have no `spec`, and that's fine.
+            continue
+        if isinstance(spec.loader, SourceFileLoader):
+            stats = path_stats(spec.origin, _stats_cache)
             mtimes.append(stats["mtime"])
+        elif spec.has_location and os.path.isfile(spec.origin):
+            # No source file to scan, e.g. an extension module.
+            mtimes.append(os.stat(spec.origin).st_mtime_ns * 1e-9)
 
     mtime = stat_result.st_mtime_ns * 1e-9
     # size = stat_result.st_size
-- 
2.43.0


From cc83ee9c36b79985ff5711a181d420946ff5aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 41/53] fix: a circular macro-import ended in RecursionError
 instead of an error with the use site

---
 mcpyrate/importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index e3af68c..ef06584 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -215,6 +215,9 @@ def path_stats(path, _stats_cache=None):
         except (ValueError, ImportError) as err:
             raise ImportError(f"while resolving absolute package name of {path}, which uses relative macro-imports") from err
 
+    # In a circular macro-import, stop here. The macro expander will report the error, with the use site.
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": None}
+
     mtimes = []
     for macroimport in macro_and_dialect_imports:
         if macroimport.module is None:
-- 
2.43.0


From 4f7cbf3cf8813cdf6034e9bb2c7e2835e76f0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 42/53] fix: the optimize setting did not reach the higher
 phases of a multi-phase module

---
 mcpyrate/multiphase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index dfbda4e..93fea9d 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -375,7 +375,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
     try:
-        return _expand_phases(tree, module, n, debug, filename=filename, self_module=self_module, dexpander=dexpander)
+        return _expand_phases(tree, module, n, debug, filename=filename, self_module=self_module, dexpander=dexpander, _optimize=_optimize)
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module,
         # also if the compile failed
@@ -387,7 +387,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             except KeyError:
                 pass
 
-def _expand_phases(tree, module, n, debug, *, filename, self_module, dexpander):
+def _expand_phases(tree, module, n, debug, *, filename, self_module, dexpander, _optimize):
     """The phase loop of `multiphase_expand`, which see. `module` is the temporary module; `n` is the highest phase."""
     c, CS = setcolor, ColorScheme
 
@@ -417,6 +417,6 @@ def _expand_phases(tree, module, n, debug, *, filename, self_module, dexpander):
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
+            compiler.run(phase_k_tree, module, optimize=_optimize)
 
     return expansion
-- 
2.43.0


From 09a146001cbebe8ad5d65a70f5bd2f9ee45c5472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 43/53] fix: a temporary module stayed in its parent package if
 its code had unregistered it

---
 mcpyrate/compiler.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 97c1ced..5521f27 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -574,14 +574,14 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     try:
         yield module
     finally:
-        try:
-            del sys.modules[dotted_name]
-
-            # The standard importer doesn't do this, but it seems nice for symmetry,
-            # considering the use case.
-            if update_parent and dotted_name.find(".") != -1:
-                packagename, finalcomponent = dotted_name.rsplit(".", maxsplit=1)
-                package = sys.modules.get(packagename, None)
+        # Each step is separate, because the code that ran in the context may have
+        # already undone one of them.
+        sys.modules.pop(dotted_name, None)
+
+        # The standard importer doesn't do this, but it seems nice for symmetry,
+        # considering the use case.
+        if update_parent and dotted_name.find(".") != -1:
+            packagename, finalcomponent = dotted_name.rsplit(".", maxsplit=1)
+            package = sys.modules.get(packagename, None)
+            if package is not None and getattr(package, finalcomponent, None) is module:
                 delattr(package, finalcomponent)
-        except BaseException:
-            pass
-- 
2.43.0


From 1efedaf65467dea36454d93b21de5ac901fe48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 44/53] fix: the error for a wrong dialect-import named line 1
 whatever its line

---
 mcpyrate/dialects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 29e94dd..164089a 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -387,6 +387,7 @@ class DialectExpander:
 
         dummy_module = ast.parse(statement, filename=self.filename, mode="exec")
         dialectimport = dummy_module.body[0]
+        ast.increment_lineno(dialectimport, lineno - 1)  # for error messages
         module_absname, bindings = get_macros(dialectimport, filename=self.filename,
                                               reload=False, allow_asname=False)
         return module_absname, bindings, lineno, col_offset
-- 
2.43.0


From 21cce51733fb5de27eedfd80bbe9d6dcf045f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 45/53] fix: console inputs ending in a question mark inside a
 comment or string, or in a wrong help query, ended the session

---
 mcpyrate/repl/console.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..12bfeb6 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -115,6 +115,14 @@ class MacroConsole(code.InteractiveConsole):
         code = compile(tree, "<console internal>", "single", self.compile.compiler.flags, 1)
         self.runcode(code)
 
+    def _isexpression(self, source):
+        """Return whether `source` is a Python expression."""
+        try:
+            ast.parse(source.strip(), self.filename, mode="eval")
+        except (OverflowError, SyntaxError, ValueError):
+            return False
+        return True
+
     def interact(self, banner=None, exitmsg=None):
         """See `code.InteractiveConsole.interact`.
 
@@ -135,16 +143,17 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
-        elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
 
         try:
             code = self.compile(source, filename, symbol)
         except (OverflowError, SyntaxError, ValueError):
             code = ""
+            # A help query is never valid Python. (But a comment or a string may end in a question mark.)
+            if source.endswith("?"):
+                query, helper = (source[:-2], "sourcecode") if source.endswith("??") else (source[:-1], "doc")
+                if self._isexpression(query):
+                    # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+                    return self._internal_execute(f"mcpyrate.repl.utils.{helper}({query})")
         if code is None:  # incomplete input
             return True
 
-- 
2.43.0


From 311044dc8268bece6acf6e538b5e518cee2f66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 46/53] fix: an error while importing a macro module or
 compiling an expansion ended the console session

---
 mcpyrate/repl/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 12bfeb6..b1a092a 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -192,6 +192,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # e.g. while importing a macro module, or while compiling what a macro returned
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
-- 
2.43.0


From fb1bcdb8363ea6b36635c2c24555b3c276e09426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 47/53] fix: macro-importing a function that is not importable
 by its own name ended the console session

---
 mcpyrate/repl/console.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index b1a092a..e6ea1a6 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -217,8 +217,6 @@ class MacroConsole(code.InteractiveConsole):
                 continue
             if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
                 continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+            # The name a macro was imported under need not be the name of the function
+            # (which may not even be available by name, e.g. if it is a closure).
+            self.locals[asname] = function
-- 
2.43.0


From 418283b323c2d89cfe497ec6e9a12195bf0dee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 48/53] fix: macro-importing a function that is not importable
 by its own name showed an error in IPython

---
 mcpyrate/repl/iconsole.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b744c36..34c9316 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -23,7 +23,6 @@ line magic.
 
 import ast
 import copy
-from functools import partial
 import sys
 
 from IPython.core import magic_arguments
@@ -206,10 +205,6 @@ class IMcpyrateExtension:
         if not self._macro_bindings_changed:
             return
         self._macro_bindings_changed = False
-        internal_execute = partial(self.shell.run_cell,
-                                   store_history=False,
-                                   silent=True)
-
         for asname, function in self.macro_transformer.expander.bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
@@ -217,6 +212,6 @@ class IMcpyrateExtension:
                 continue
             if not function.__module__:  # Macros defined in the REPL have `__module__=None`.
                 continue
-            commands = ["%%ignore_importerror",
-                        f"from {function.__module__} import {function.__qualname__} as {asname}"]
-            internal_execute("\n".join(commands))
+            # Bind the function itself; the name it was defined under may not be importable
+            # (e.g. a function made by another function has `<locals>` in its `__qualname__`).
+            self.shell.user_ns[asname] = function
-- 
2.43.0


From 6de733ebbc1b49c82b90b998298788d85d2c2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 49/53] fix: scripts named like a builtin module or a sibling
 package, or without a .py name, could not be run

---
 mcpyrate/repl/macropython.py | 78 +++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 41 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..c5c2d18 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -13,12 +13,12 @@ import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
 from ..core import MacroApplicationError
-from ..coreutils import relativize
 from ..pycachecleaner import deletepycachedirs, getpycachedirs
 
 __version__ = "3.1.0"
@@ -28,9 +28,17 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 
 # --------------------------------------------------------------------------------
 
-def import_module_as_main(name, script_mode):
+class _UncachedSourceLoader(SourceFileLoader):
+    """Loader for a script not named `.py`, for which no bytecode is cached (macro-dependencies are tracked for `.py` files only)."""
+    def path_stats(self, path):
+        raise OSError("no bytecode caching")
+
+def import_module_as_main(name, script_mode, filename=None):
     """Import a module, pretending it's __main__.
 
+    In script mode, `filename` is the full path of the script to run.
+    `name` is then not used.
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -45,7 +53,7 @@ def import_module_as_main(name, script_mode):
         https://docs.python.org/3/reference/import.html#module-path
         https://docs.python.org/3/reference/import.html#special-considerations-for-main
     """
-    absolute_name = resolve_name(name, package=None)
+    absolute_name = "__main__" if script_mode else resolve_name(name, package=None)
 
     # If already loaded, normally we should return the module from `sys.modules`,
     # but `sys.modules["__main__"]` is for now this bootstrapper, not the user __main__.
@@ -59,25 +67,31 @@ def import_module_as_main(name, script_mode):
     #     pass
 
     path = None
-    if '.' in absolute_name:
-        if script_mode:
-            raise ValueError("In script mode, please add the containing directory to `sys.path` and then top-level import the final component of the name.")
-        # Import the module's parent package normally to initialize parent packages.
-        # Get the appropriate `path` for `find_spec` to find subpackages and modules.
-        parent_name, _, child_name = absolute_name.rpartition('.')
-        parent_module = import_module(parent_name)
-        path = parent_module.__spec__.submodule_search_locations
-
-    for finder in sys.meta_path:
-        if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-            continue
-        # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
-        spec = finder.find_spec(absolute_name, path)
-        if spec is not None:
-            break
+    if script_mode:
+        # Whatever the file is called; like Python itself, don't search for it by a module name.
+        spec = spec_from_file_location(absolute_name, filename, submodule_search_locations=None)
+        if spec is None:  # not a standard filename extension, so assume source code
+            spec = spec_from_file_location(absolute_name, filename,
+                                           loader=_UncachedSourceLoader(absolute_name, filename),
+                                           submodule_search_locations=None)
     else:
-        msg = f"No module named {absolute_name}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
+        if '.' in absolute_name:
+            # Import the module's parent package normally to initialize parent packages.
+            # Get the appropriate `path` for `find_spec` to find subpackages and modules.
+            parent_name, _, child_name = absolute_name.rpartition('.')
+            parent_module = import_module(parent_name)
+            path = parent_module.__spec__.submodule_search_locations
+
+        for finder in sys.meta_path:
+            if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
+                continue
+            # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
+            spec = finder.find_spec(absolute_name, path)
+            if spec is not None:
+                break
+        else:
+            msg = f"No module named {absolute_name}"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     spec.name = "__main__"
     if spec.loader:
@@ -262,25 +276,7 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
-        # This approach finds the standard loader even for macro-enabled scripts.
-        # TODO: For mcpyrate, that could be ok, since we monkey-patch just that.
-        # TODO: But maybe better to leave the option to replace the whole loader later.
-        # spec = spec_from_file_location("__main__", str(fullpath))
-        # if not spec:
-        #     raise ImportError(f"Not a Python module: '{opts.filename}'"
-        # module = module_from_spec(spec)
-        # TODO: if we use this approach, we should first initialize parent packages.
-        # sys.modules[module.__name__] = module
-        # spec.loader.exec_module(module)
-
-        root_path, relative_path = relativize(opts.filename)
-        module_name = relative_path.replace(os.path.sep, '.')
-        if module_name.endswith(".__init__.py"):
-            module_name = module_name[:-12]
-        elif module_name.endswith(".py"):
-            module_name = module_name[:-3]
-
-        import_module_as_main(module_name, script_mode=True)
+        import_module_as_main("__main__", script_mode=True, filename=str(fullpath))
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 71e8784caffc16808bb3f5e66b3f88fc9745f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 50/53] fix: macropython -m did not run the main program of
 nested and namespace packages, and not as __main__

---
 mcpyrate/repl/macropython.py | 91 ++++++++++++++----------------------
 1 file changed, 35 insertions(+), 56 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index c5c2d18..38013d0 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -14,7 +14,7 @@ import pathlib
 import sys
 from importlib import import_module
 from importlib.machinery import SourceFileLoader
-from importlib.util import module_from_spec, resolve_name, spec_from_file_location
+from importlib.util import find_spec, module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
@@ -93,65 +93,44 @@ def import_module_as_main(name, script_mode, filename=None):
             msg = f"No module named {absolute_name}"
             raise ModuleNotFoundError(msg, name=absolute_name)
 
-    spec.name = "__main__"
-    if spec.loader:
-        spec.loader.name = "__main__"
+    if not script_mode and spec.submodule_search_locations is not None:  # e.g. "macropython -m somepackage"
+        # Like `python -m somepackage` does, import the package normally (this runs its `__init__.py`, if any),
+        # and run its `__main__.py` as the main program.
+        mainpy = f"{absolute_name}.__main__"
+        if find_spec(mainpy) is None:
+            raise ImportError(f"No module named {mainpy}; '{absolute_name}' is a package and cannot be directly executed")
+        return import_module_as_main(mainpy, script_mode=False)
+
+    spec.name = spec.loader.name = "__main__"
 
     module = module_from_spec(spec)
-    try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
-    elif path:  # e.g. "macropython -m somepackage.module"
-        module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
-        module.__package__ = absolute_name
-        try_mainpy = True
-
-    if spec.origin == "namespace":
-        # https://docs.python.org/3/reference/import.html#__path__
-        module.__path__ = spec.submodule_search_locations
-
-    if try_mainpy:
-        # e.g. "import somepackage" in the above case; it's not __main__, so import it normally.
-        assert not script_mode
-        parent_module = import_module(absolute_name)
-    elif spec.loader:
-        sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
-        try:
-            spec.loader.exec_module(module)
-        except Exception as err:
-            sys.modules["__main__"] = _macropython_module
-            if isinstance(err, MacroApplicationError):
-                # To avoid noise, discard most of the traceback of the chained
-                # macro-expansion errors emitted by the expander core. The
-                # linked (`__cause__`) exceptions have the actual tracebacks.
-                #
-                # Keep just the last entry, which should state that this
-                # exception came from `expand` in `core.py`.
-                tb = err.__traceback__
-                while tb.tb_next:
-                    tb = tb.tb_next
-                raise err.with_traceback(tb)
-            raise
-        # # __main__ has no parent module so we don't need to do this.
-        # if path is not None:
-        #     setattr(parent_module, child_name, module)
-    else:  # namespace packages have loader=None
-        try_mainpy = True
-
-    # __init__.py (if any) has run; run __main__.py, like `python -m somepackage` does.
-    if try_mainpy:
-        has_mainpy = True
-        try:
-            # __main__.py doesn't need to have its name set to "__main__", so import it normally.
-            import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
-                has_mainpy = False
-            else:
-                raise
-        if not has_mainpy:
-            raise ImportError(f"No module named {absolute_name}.__main__; '{absolute_name}' is a package and cannot be directly executed")
+    else:  # e.g. "macropython -m somepackage.module"
+        # Like in `python -m somepackage.module`, only `__name__` is "__main__".
+        spec.name = absolute_name
+        module.__package__ = spec.parent
+
+    sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
+    try:
+        spec.loader.exec_module(module)
+    except Exception as err:
+        sys.modules["__main__"] = _macropython_module
+        if isinstance(err, MacroApplicationError):
+            # To avoid noise, discard most of the traceback of the chained
+            # macro-expansion errors emitted by the expander core. The
+            # linked (`__cause__`) exceptions have the actual tracebacks.
+            #
+            # Keep just the last entry, which should state that this
+            # exception came from `expand` in `core.py`.
+            tb = err.__traceback__
+            while tb.tb_next:
+                tb = tb.tb_next
+            raise err.with_traceback(tb)
+        raise
+    # # __main__ has no parent module so we don't need to do this.
+    # if path is not None:
+    #     setattr(parent_module, child_name, module)
 
     return module
 
-- 
2.43.0


From 9e242f359934fcd956842c3d64e816ef817613f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 51/53] fix: after an error in the program, __main__ was None
 if it was started with the installed macropython

---
 mcpyrate/repl/macropython.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 38013d0..1f6a370 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -111,11 +111,12 @@ def import_module_as_main(name, script_mode, filename=None):
         spec.name = absolute_name
         module.__package__ = spec.parent
 
+    bootstrapper = sys.modules["__main__"]
     sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
     try:
         spec.loader.exec_module(module)
     except Exception as err:
-        sys.modules["__main__"] = _macropython_module
+        sys.modules["__main__"] = bootstrapper
         if isinstance(err, MacroApplicationError):
             # To avoid noise, discard most of the traceback of the chained
             # macro-expansion errors emitted by the expander core. The
-- 
2.43.0


From 67e76bd41b4a39bee524d8313b238f6678e6bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 52/53] fix: two threads evaluating a hygienic capture for the
 first time could get different objects

---
 mcpyrate/quotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 0d69adf..cb8dfc4 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -342,7 +342,8 @@ def lookup_value(key):
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
         # Keep also `frozen_value` itself alive, so that its `id` cannot be recycled for another capture.
-        _lookup_cache[cachekey] = (pickle.loads(frozen_value), frozen_value)
+        # Some other thread may have added it meanwhile; all threads must get the same object.
+        _lookup_cache.setdefault(cachekey, (pickle.loads(frozen_value), frozen_value))
     value, _ = _lookup_cache[cachekey]
     return value
 
-- 
2.43.0


From 80068c7f37850c55bb4a98c04629c64a5ac1c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 53/53] fix: the optimization level a loader is asked for
 (py_compile, compileall) was ignored

---
 mcpyrate/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index ef06584..65d83cd 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -25,7 +25,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
-- 
2.43.0

