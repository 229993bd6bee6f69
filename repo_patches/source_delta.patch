From 1b61db224a6181e4483a1863701d0f8a6361ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:16 +0000
Subject: [PATCH 01/27] fix: make Continue find the enclosing loop

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From 38aea61db4edbdd63679c42be6baaf7b7d44f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:24 +0000
Subject: [PATCH 02/27] fix: execute a Default block at most once

---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..710b46d 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -925,6 +925,10 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # The default is the last block, there is nothing to fall through to (and
+            # without this, a default without 'Break' would be executed forever):
+            snext._fallthrough = False
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From f91e4e1c2fd5d65d628ee35eda27524550fe4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:31 +0000
Subject: [PATCH 03/27] fix: keep the state changes made while evaluating the
 argument of Exec

---
 src/wizard/contexts/contexts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 710b46d..0c49210 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -232,8 +232,9 @@ class WizardTopLevelContext(
 
     def exec_(self) -> WizardBodyContext[ContextState]:
         # We forward the parent, which is either self (no parent) or the parent body
-        # for Exec().
-        return self._factory.make_body_context(self.context.body(), self.parent)
+        # for Exec(), which must see what evaluating the script changed.
+        parent = self if self.is_top_level() else self._factory.copy_parent(self)
+        return self._factory.make_body_context(self.context.body(), parent)
 
 
 class WizardCancelContext(
-- 
2.43.0


From 2e092cf5521039ee6c2212036882b30477a3ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:38 +0000
Subject: [PATCH 04/27] fix: keep the state changes made while evaluating the
 header of a Select

---
 src/wizard/contexts/contexts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 0c49210..ce227ab 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -746,7 +746,7 @@ class WizardSelectContext(
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From 679e0ee1645a3b117eb010a362e8a601ab5e74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:46 +0000
Subject: [PATCH 05/27] fix: include the end of For loops with a negative step

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index ce227ab..7c2684b 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -508,7 +508,9 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end is inclusive, in both directions:
+        stop = end.value + (1 if by.value > 0 else -1)
+        return [Value(i) for i in range(sta.value, stop, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From a8078270e99eb96f1925d5d72254043ddd86bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:54 +0000
Subject: [PATCH 06/27] fix: allow keywords to omit optional arguments

---
 src/wizard/contexts/keywords.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..f9133e4 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,8 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        # only the arguments that explicitly accept None are optional
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,21 +59,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-- 
2.43.0


From 0332f0131a2af91e1f2cdec1433150afcd6bd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:31 +0000
Subject: [PATCH 07/27] fix: evaluate keyword arguments on the updated state,
 not on the rewindable one

---
 src/wizard/contexts/keywords.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index f9133e4..122c2a3 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, types: Sequence[type], state: ContextState) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -69,7 +69,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -169,7 +169,7 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self._argtypes, self.state)
 
     # these property are useful to use the interpreter
     @property
@@ -189,10 +189,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(types, state)
         return (gv, sew or None, gew or None, wbv or None)
 
     def _visit(
-- 
2.43.0


From 1a38b29b0c627ef681c2407028fe1fb4be802456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:39 +0000
Subject: [PATCH 08/27] fix: evaluate the arguments of RequireVersions once

---
 src/wizard/contexts/keywords.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 122c2a3..b952b7c 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -171,6 +171,12 @@ class WizardRequireVersionsContext(
 
         self._args = self._get_args(self._argtypes, self.state)
 
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # The arguments were already evaluated (on the state of this context):
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
+
     # these property are useful to use the interpreter
     @property
     def game_version(self) -> str:
-- 
2.43.0


From cf5440192e4916bba7f3cd6a9e2624e6928d56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:47 +0000
Subject: [PATCH 09/27] fix: let functions be called without their optional
 arguments

---
 src/wizard/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..0c5c05a 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -143,7 +143,9 @@ def wrap_function(
             raise TypeError(f"{name}: too many arguments.")
 
         for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+            if iarg >= len(vs):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
-- 
2.43.0


From 42eb3682b3e4b18e0902060b7c780a83c998f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:58 +0000
Subject: [PATCH 10/27] fix: forward all the arguments of functions with
 variable arguments

---
 src/wizard/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 0c5c05a..5f2f95e 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,7 +142,10 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
+        # Extra arguments have the type of the last one:
+        targs = args + args[-1:] * (len(vs) - len(args))
+
+        for iarg, arg in enumerate(targs):
             if iarg >= len(vs):
                 if isinstance(arg, optional):
                     break
-- 
2.43.0


From 6ce3f926b913650a1db4908d309b18616fbbc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:06 +0000
Subject: [PATCH 11/27] fix: make the start and end arguments of find and rfind
 optional

---
 src/wizard/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 5f2f95e..eb5c08e 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -204,7 +204,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if param.default is param.empty else optional(object)
+                for param in sig.parameters.values()
+                if param.kind is not param.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 72dd8a6b6c2b2a634c16ae866b391b28d654401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:15 +0000
Subject: [PATCH 12/27] fix: keep non-ASCII characters of string literals

---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..ae757f3 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -362,7 +362,10 @@ class WizardExpressionVisitor:
         txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        # (backslashreplace keeps the characters that are not in latin-1)
+        txt = codecs.decode(
+            txt.encode("latin-1", "backslashreplace"), "unicode_escape"
+        )
 
         return Value(txt)
 
-- 
2.43.0


From 675e2021263966d4581d4e6524b59d9431165bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:22 +0000
Subject: [PATCH 13/27] fix: do not share severities between severity contexts

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From 2efd29487710f896dae01c156d87856ac0075f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 14/27] fix: return a boolean from the And operator

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From 10311ae24985568634141a5eaec1125127a35c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:04 +0000
Subject: [PATCH 15/27] fix: recognize plugins whose extension is not in lower
 case

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index 6bf8163..03592e5 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -89,7 +89,7 @@ class SubPackage(CaseFoldNamedObject):
         Returns:
             True if the name corresponds to a plugin, False otherwise.
         """
-        return name.endswith(".esp") or name.endswith(".esm") or name.endswith(".esl")
+        return name.lower().endswith((".esp", ".esm", ".esl"))
 
     def plugins(self) -> Iterable[Plugin]:
         return (Plugin(Path(file).name) for file in self.files if self.is_plugin(file))
-- 
2.43.0


From 37edd34df7f05acd0a3d78b1c65d937b0e837500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:12 +0000
Subject: [PATCH 16/27] fix: make ResetPluginName find plugins whatever the
 case of their name

---
 src/wizard/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..bc7469b 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,8 +288,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
-            del state._renames[Plugin(name)]
+        # names are case-insensitive, but strings are not hashed like Plugin
+        state._renames.pop(Plugin(name), None)
 
     def visitSelectAll(
         self, context: WizardKeywordContext[WizardRunnerState], state: WizardRunnerState
-- 
2.43.0


From 0a9309478a82780995903733dd6ad200a0831a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:22 +0000
Subject: [PATCH 17/27] fix: raise KeyError when deleting an item already
 deleted from a StackMutableMapping

---
 src/wizard/utils/mappings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..b93892f 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -27,8 +27,10 @@ class StackMutableMapping(MutableMapping[K, V]):
         if item in self._variables:
             del self._variables[item]
 
-        # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        # If item was already deleted, or is not in the parent:
+        elif (
+            item in self._deleted or self._parent is None or item not in self._parent
+        ):
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From c23b268cade58dcefd964c42694eeccdc524280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:30 +0000
Subject: [PATCH 18/27] fix: load files whose encoding cannot be detected (e.g.
 empty ones)

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..ebfa823 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # the encoding is None if it cannot be detected, e.g., for empty files
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From 82e947d9106611b58863aa0188bb7129e7481983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 19/27] fix: list the files of INI tweaks once whatever the
 case of their names

---
 src/wizard/tweaks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wizard/tweaks.py b/src/wizard/tweaks.py
index cdbbd47..f589e6f 100644
--- a/src/wizard/tweaks.py
+++ b/src/wizard/tweaks.py
@@ -100,11 +100,11 @@ class WizardINITweaks:
         Returns:
             The list of all files containing INI tweaks (either modified or disabled).
         """
-        return sorted(
-            set(m.filename for m in self._modified).union(
-                m.filename for m in self._disabled
-            )
-        )
+        # names of files are case-insensitive (see tweaks()), keep the first spelling
+        files: dict[str, str] = {}
+        for m in (*self._modified, *self._disabled):
+            files.setdefault(m.filename.lower(), m.filename)
+        return sorted(files.values())
 
     def tweaks(self, file: str) -> Sequence[WizardINISetting]:
         """
-- 
2.43.0


From 3de78f5482d538e86071424189091373ffd2cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:57 +0000
Subject: [PATCH 20/27] fix: do not select the same sub-package or plugin more
 than once

---
 src/wizard/runner.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index bc7469b..48b1c97 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        plugins = {pg: True for sp in state._subpackages for pg in sp.plugins()}
+        state._plugins = list(plugins.keys())
 
     def visitSelectPlugin(
         self,
@@ -332,7 +333,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        plugin = self._plugins[ipg]
+        if plugin not in state._plugins:
+            state._plugins.append(plugin)
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +361,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From c46a133f54438a4612060bedcec4dc4dd3c0c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:28 +0000
Subject: [PATCH 21/27] fix: do not let scripts call the visitors of
 expressions as functions

---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index ae757f3..64751fb 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -101,7 +101,10 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        # The visitors of the expressions themselves are not functions:
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From db7881c962f257246297cba506497559caebe792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:36 +0000
Subject: [PATCH 22/27] fix: convert value and arithmetic errors of scripts to
 Wizard errors

---
 src/wizard/contexts/utils.py | 10 +++++++++-
 src/wizard/errors.py         |  9 +++++++++
 src/wizard/expr.py           | 10 +++++++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index f206536..20c25da 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -3,7 +3,13 @@ from typing import Callable, TypeVar
 from antlr4 import ParserRuleContext
 from antlr4.error.Errors import InputMismatchException, ParseCancellationException
 
-from ..errors import WizardError, WizardIndexError, WizardParseError, WizardTypeError
+from ..errors import (
+    WizardError,
+    WizardIndexError,
+    WizardParseError,
+    WizardTypeError,
+    WizardValueError,
+)
 
 T = TypeVar("T")
 
@@ -32,3 +38,5 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
         raise WizardIndexError(context, *ie.args) from ie
+    except (ValueError, ArithmeticError) as ve:
+        raise WizardValueError(context, str(ve)) from ve
diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 50c0c50..4ee4621 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -159,6 +159,15 @@ class WizardTypeError(WizardError):
     pass
 
 
+class WizardValueError(WizardError):
+    """
+    Error raised when an operation is not possible on the given values, e.g., a
+    division by zero.
+    """
+
+    pass
+
+
 class WizardMissingPackageError(WizardError):
     _name: str
 
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 64751fb..f95b38e 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -4,7 +4,13 @@ from collections.abc import Mapping, Sequence
 from typing import Any, Callable, Type, overload
 
 from .antlr4.wizardParser import wizardParser
-from .errors import WizardIndexError, WizardNameError, WizardParseError, WizardTypeError
+from .errors import (
+    WizardIndexError,
+    WizardNameError,
+    WizardParseError,
+    WizardTypeError,
+    WizardValueError,
+)
 from .severity import Issue, SeverityContext
 from .state import WizardInterpreterState
 from .value import (
@@ -416,6 +422,8 @@ class WizardExpressionVisitor:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
             raise WizardIndexError(ctx, *ie.args) from ie
+        except (ValueError, ArithmeticError) as ve:
+            raise WizardValueError(ctx, str(ve)) from ve
 
         if typ is not None and not isinstance(value.value, typ):
             raise WizardTypeError(
-- 
2.43.0


From 6651ef8202112691b0c42790e515309271ae8349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:23 +0000
Subject: [PATCH 23/27] fix: allow abort() and rewind() in any callback of the
 runner

---
 src/wizard/scriptrunner.py | 60 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..b3bf664 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -161,40 +161,50 @@ class WizardScriptRunner(
             self.make_top_level_context(script)
         )
 
+        # True if abort() was called and cancel() was not called yet:
+        aborted: bool = False
+
         while True:
             self._ctx = ctx
 
             try:
-                if isinstance(ctx, WizardSelectOneContext):
-                    ctx = ctx.select(
-                        self.selectOne(ctx.description, ctx.options, ctx.default)
-                    )
-                elif isinstance(ctx, WizardSelectManyContext):
-                    ctx = ctx.select(
-                        self.selectMany(ctx.description, ctx.options, ctx.defaults)
-                    )
-                elif isinstance(ctx, WizardTerminationContext):
-                    if ctx.is_cancel():
+                try:
+                    if aborted:
+                        aborted = False
                         if self.cancel():
                             return (WizardScriptRunnerStatus.CANCEL, ctx.state)
-                    elif ctx.is_return():
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.RETURN, ctx.state)
-                    else:
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
 
-                ctx = ctx.exec()
+                    if isinstance(ctx, WizardSelectOneContext):
+                        ctx = ctx.select(
+                            self.selectOne(ctx.description, ctx.options, ctx.default)
+                        )
+                    elif isinstance(ctx, WizardSelectManyContext):
+                        ctx = ctx.select(
+                            self.selectMany(ctx.description, ctx.options, ctx.defaults)
+                        )
+                    elif isinstance(ctx, WizardTerminationContext):
+                        if ctx.is_cancel():
+                            if self.cancel():
+                                return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                        elif ctx.is_return():
+                            if self.complete():
+                                return (WizardScriptRunnerStatus.RETURN, ctx.state)
+                        else:
+                            if self.complete():
+                                return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+
+                    ctx = ctx.exec()
+
+                # These can be raised by any callback, including error() and cancel():
+                except (WizardScriptRunner.RewindFlow, WizardScriptRunner.CancelFlow):
+                    raise
+
+                except Exception as ex:
+                    self.error(ex)
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
 
             except WizardScriptRunner.RewindFlow as rfex:
                 ctx = rfex.context
 
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
-
-            except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
-
-        return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+                aborted = True
-- 
2.43.0


From 44f814bb3548e27670e6c0bb6348865d5ff92435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:30 +0000
Subject: [PATCH 24/27] fix: continue after Cancel or Return when the callback
 asks to

---
 src/wizard/scriptrunner.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index b3bf664..d12fffd 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -190,8 +190,14 @@ class WizardScriptRunner(
                             if self.complete():
                                 return (WizardScriptRunnerStatus.RETURN, ctx.state)
                         else:
-                            if self.complete():
-                                return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+                            # There is nothing left to execute, even if the
+                            # callback asks to continue:
+                            self.complete()
+                            return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+
+                        # Continue after the 'Cancel' or 'Return':
+                        ctx = ctx.factory.copy_parent(ctx.parent)
+                        continue
 
                     ctx = ctx.exec()
 
-- 
2.43.0


From b890deb8a56afba4e7f4d85d9d02cf1d63810715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 25/27] fix: report broken For headers and Select options as
 parse errors

---
 src/wizard/contexts/contexts.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 7c2684b..3e46eb2 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -483,6 +483,13 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        # The header is evaluated here, before the checks made by exec():
+        if self.context.exception:
+            raise WizardParseError(self.context, self.context.exception)
+        header = self.context.forInHeader() or self.context.forRangeHeader()
+        if header is None or header.exception:
+            raise WizardParseError(self.context, header and header.exception)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
@@ -644,12 +651,19 @@ def parse_select_options(
     context: wizardParser.SelectOneContext | wizardParser.SelectManyContext,
     state: ContextState,
 ) -> tuple[str, list[SelectOption], list[SelectOption]]:
+    # The header is evaluated before the checks made by exec():
+    if context.exception:
+        raise WizardParseError(context, context.exception)
+
     # Parse the description and option:
     description = factory.evisitor.visitExpr(context.expr(), state, str).value
 
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        if opt.exception:
+            raise WizardParseError(opt, opt.exception)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
-- 
2.43.0


From 1e490dda1df0c8a3a455371c129618feead02152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 26/27] fix: give a Void value for raw functions without result

---
 src/wizard/functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index eb5c08e..1c1c5a9 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -169,11 +169,10 @@ def wrap_function(
             else:
                 pargs.append(vs[iarg].value)
 
-        ret: Value[Any] | Void | None = method(*pargs)
+        ret: Any = method(*pargs)
         if ret is None:
-            ret = Void()
-
-        if not rawargs:
+            ret = Value(Void())
+        elif not rawargs:
             ret = Value(ret)
 
         return cast(Value[Any], ret)
-- 
2.43.0


From f9778df1ea8fa44c54816be5f95757932144e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 27/27] fix: index errors without an index are converted like
 any other

---
 src/wizard/contexts/utils.py | 2 +-
 src/wizard/errors.py         | 6 +++---
 src/wizard/expr.py           | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index 20c25da..ec89c43 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -37,6 +37,6 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
     except TypeError as te:
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
-        raise WizardIndexError(context, *ie.args) from ie
+        raise WizardIndexError(context, next(iter(ie.args), None)) from ie
     except (ValueError, ArithmeticError) as ve:
         raise WizardValueError(context, str(ve)) from ve
diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 4ee4621..335d689 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -132,14 +132,14 @@ class WizardUnsupportedOperation(WizardError):
 
 
 class WizardIndexError(WizardError):
-    _index: int
+    _index: int | None
 
-    def __init__(self, context: ParserRuleContext | None, index: int):
+    def __init__(self, context: ParserRuleContext | None, index: int | None):
         super().__init__(context, f"Index {index} out of range.")
         self._index = index
 
     @property
-    def index(self) -> int:
+    def index(self) -> int | None:
         return self._index
 
 
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index f95b38e..c3a7f53 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -421,7 +421,7 @@ class WizardExpressionVisitor:
         except TypeError as te:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
-            raise WizardIndexError(ctx, *ie.args) from ie
+            raise WizardIndexError(ctx, next(iter(ie.args), None)) from ie
         except (ValueError, ArithmeticError) as ve:
             raise WizardValueError(ctx, str(ve)) from ve
 
-- 
2.43.0

