From bf07f8fba6992251d892f69876ecc7e297fabd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 01/12] fix: is_layer_qualifier_empty and is_regex_flags_empty
 answered the opposite

---
 src/fcsql/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..6e6ee47 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -583,7 +583,7 @@ class Expression(QueryNode):
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
         # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
@@ -626,7 +626,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From c4ad7e221e19ed4b73a7f6daa7486ceb5d3541b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 02/12] fix: get_child raised IndexError for the index one past
 the last child

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 6e6ee47..90a9d2d 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
-- 
2.43.0


From fc429d365e3c93b9af7d9c04fc92e953e675a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 03/12] fix: get_last_child missed the last child of a class
 among others

---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 90a9d2d..15893dc 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -497,7 +497,10 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        for child in reversed(self.children):
+            if not clazz or isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From 598401d8c685d43a116b8b262b6f9c33aa4c60ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 04/12] fix: QueryGroup nodes carried the node type of a
 segment

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 15893dc..bd60eba 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -867,7 +867,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From f34fa60a88a67ffabb222a508753e9107fcafdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 05/12] fix: visitors never reached the handlers of wildcard,
 group, and, or and not expressions

---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index bd60eba..2cf7de5 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -164,7 +164,10 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
         # search for specific visit function based on node_type
         method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        method = getattr(self, method_name, None)
+        if method is None:
+            # handlers are named after the node class where that differs, e.g. visit_ExpressionOr
+            method = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From d5b2e0be14cfe44f3ced6eb6050cf34cde1f1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 06/12] fix: escaped closing brackets and braces allowed by the
 grammar were rejected

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 2cf7de5..4659f4e 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1621,8 +1621,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From a032c399fb14fc324443195cb43c1704060cdf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 07/12] fix: code points above 0x7FFFFFFF were not reported as
 invalid codepoint

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 4659f4e..3cc647d 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1660,7 +1660,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0


From 6a87eb555a17e058e4a24cec237d728fc7521c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 08/12] fix: location of a query with within part included
 trailing white space

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 3cc647d..67ef253 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1056,7 +1056,8 @@ class ExpressionTreeBuilder(FCSParserVisitor):
             query = self.stack.pop()
             node = QueryWithWithin(query, within)
             if self.parser.enableSourceLocations:
-                node.location = SourceLocation.fromContext(ctx)
+                # NOTE: ctx stops at EOF, i.e. after any trailing white space
+                node.location = SourceLocation(ctx.start.start, w_ctx.stop.stop + 1)
             self.stack.append(node)
 
         LOGGER.debug("visitQuery/exit: stack=%s", self.stack)
-- 
2.43.0


From 7ebf46e6f508f4e4cc6ccad75c8d466461323642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 09/12] fix: position of unrecognised characters was relative
 to their line

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 67ef253..856916e 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -987,7 +987,8 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # lexer errors have no token but know the offset of the offending character
+            pos = getattr(e, "startIndex", column)
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From bc5f681c6b978bb595a6b31b930978e7b3da2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 10/12] fix: validator kept the parent stack of a run that
 ended by raising

---
 src/fcsql/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..d3f3f92 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -109,6 +109,8 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         # reset list of errors
         self.errors = []
         self.warnings = []
+        # and of the nodes being visited (may be left over if the last run raised)
+        self.stack.clear()
 
         # start validation
         self.visit(node)
-- 
2.43.0


From 6ee91953346a5b5b2ea173e6f35a9258ac39cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 11/12] fix: antlr_parse ignored lexical errors

---
 src/fcsql/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..97d8a81 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,7 +48,9 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
-    parser.addErrorListener(ExceptionThrowingErrorListener())
+    error_listener = ExceptionThrowingErrorListener()
+    lexer.addErrorListener(error_listener)
+    parser.addErrorListener(error_listener)
     tree: FCSParser.QueryContext = parser.query()
     return tree
 
-- 
2.43.0


From 28b409825caac82237a9c7e2bf5f42ce5d610652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 12/12] fix: validator reported a parent node after a run that
 raised

---
 src/fcsql/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index d3f3f92..b5a233b 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -113,7 +113,11 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         self.stack.clear()
 
         # start validation
-        self.visit(node)
+        try:
+            self.visit(node)
+        finally:
+            # no parent node outside of a run, also if it raised
+            self.stack.clear()
 
         num_issues = len(self.errors)
         if self.warnings_as_errors:
-- 
2.43.0

