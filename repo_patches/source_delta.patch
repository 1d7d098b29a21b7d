From 6bd525028bdba566fa1e5da2a27ccb10fe59df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 01/66] fix: generated modules must import enum, because
 enum-items without a value are rendered as enum.auto()

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..fc7f2a2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -315,6 +315,7 @@ def source_hash(source_text: str) -> str:
 
 GENERAL_IMPORTS = """
 import sys
+import enum
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
     from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict
-- 
2.43.0


From 4dd93e3beca01404ea0c60ed3c1fe531e732a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 02/66] fix: generated modules must import Set, which the
 transpiler considers a known type

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fc7f2a2..6f94424 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -318,11 +318,11 @@ import sys
 import enum
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict
+    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict, Set
     # do not use list, tuple, dict, because contained types won't be forward ref'd
     from collections.abc import Coroutine
 else:
-    from typing import Union, List, Tuple, Optional, Dict, Any, Generic, TypeVar, Callable, Coroutine
+    from typing import Union, List, Tuple, Optional, Dict, Set, Any, Generic, TypeVar, Callable, Coroutine
 """
 
 TYPEDDICT_IMPORTS = """
-- 
2.43.0


From ab88bc7f120ebcd385f505efd72baff9ad410d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 03/66] fix: more than one top-level constant with an anonymous
 interface as type raised an IndexError

---
 ts2pythonParser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 6f94424..25becdc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -784,8 +784,8 @@ class ts2pythonCompiler(Compiler):
                     T = f"Optional[{T}]"
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
-            self.local_classes.pop()
-            self.optional_keys.pop()
+            self.local_classes[-1] = []
+            self.optional_keys[-1] = []
             return preface + f"{identifier}: {T}"
         return f"{identifier}: {T}"
 
@@ -897,7 +897,8 @@ class ts2pythonCompiler(Compiler):
         union = []
         i = 0
 
-        obj_name_stub = self.obj_name[-1]
+        obj_name = self.obj_name[-1]
+        obj_name_stub = obj_name
         fname = self.func_name[:1].upper() + self.func_name[1:]
         for nd in node.children:
             n = obj_name_stub.rfind('_')
@@ -913,6 +914,7 @@ class ts2pythonCompiler(Compiler):
                 union.append(typ)
                 i += 1
             self.obj_name[-1] = obj_name_stub
+        self.obj_name[-1] = obj_name
         for i in range(len(union)):
             typ = union[i]
             if typ[0:5] == 'class':
@@ -922,10 +924,7 @@ class ts2pythonCompiler(Compiler):
                 cname = m.group(1)
                 self.local_classes[-1].append(typ)
                 union[i] = cname
-        if self.is_toplevel():
-            preface = self.render_local_classes()
-        else:
-            preface = ''
+        preface = ''
         if self.use_literal_type and \
                 any(nd[0].name == 'literal' for nd in node.children):
             if all(nd[0].name == 'literal' for nd in node.children):
-- 
2.43.0


From 9a9daf417d106f3f93633e746885a3846ad972ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 04/66] fix: anonymous interfaces in the signatures of
 top-level functions were not rendered

---
 ts2pythonParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 25becdc..1900988 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -812,6 +812,9 @@ class ts2pythonCompiler(Compiler):
             return_type = self.compile(node['types'])
         except KeyError:
             return_type = 'Any'
+        if self.is_toplevel() and self.local_classes[-1]:
+            preface += self.render_local_classes()
+            self.local_classes[-1] = []
         decorator = node.get_attr('decorator', '')
         fallback = ""
         type_error = "raise TypeError(f'First argument {arg1} of single-dispatch " \
-- 
2.43.0


From 9c2da9f2dc4038fd51855de1fb3f6f43f14ccbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 05/66] fix: GenericTypedDict is not imported if NotRequired is
 used, so do not derive from it in this case

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1900988..a1e5228 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -592,6 +592,7 @@ class ts2pythonCompiler(Compiler):
             total = not bool(optional_key_list) or self.use_not_required
             if base_classes:
                 td_name = 'TypedDict' if (self.use_variadic_generics or
+                                          self.use_not_required or
                                           base_classes.find('Generic[') < 0) \
                                       else 'GenericTypedDict'
                 if self.use_not_required:
-- 
2.43.0


From 750f60c6ab65a6c2c63fe545da8f4b65ca69eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 06/66] fix: an optional field was not marked as optional, if
 its type merely contained a nested None

---
 ts2pythonParser.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a1e5228..2c8ca0c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -389,6 +389,25 @@ def to_varname(typename: str) -> str:
     return typename[0].lower() + (typename[1:-1] if typename[-1:] == '_' else typename[1:])
 
 
+def includes_none(type_expression: str) -> bool:
+    """Returns True, if None is an alternative of the given type-union itself.
+    A None inside the parameters of another type does not count::
+
+        >>> includes_none('Union[str, None]')
+        True
+        >>> includes_none('Union[List[Union[str, None]], str]')
+        False
+    """
+    expr = type_expression.strip('\'"')
+    if expr.startswith('Union['):
+        expr = expr[6:-1]
+    expr = re.sub(r'"[^"\n]*"|\'[^\'\n]*\'', '_', expr)
+    nested = ''
+    while nested != expr:
+        nested, expr = expr, re.sub(r'\[[^\[\]]*\]', '', expr)
+    return re.search(r'(?<![\w.])None(?![\w.])', expr) is not None
+
+
 def to_dict(declarations: str) -> str:
     r"""Converts a sequence of declarations to a dictionary.
     Example::
@@ -773,10 +792,10 @@ class ts2pythonCompiler(Compiler):
                 T = f"NotRequired[{T}]"
             else:
                 if T.startswith('Union['):
-                    if T.find('None') < 0:
+                    if not includes_none(T):
                         T = T[:-1] + ', None]'
                 elif T.find('|') >= 0:
-                    if T.find('None') < 0:
+                    if not includes_none(T):
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
                         else:
-- 
2.43.0


From 7fb8e21a8e0309a7c6de86cab4e1323dfe53c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 07/66] fix: overloaded methods were not marked as such, if the
 interface also had a call signature

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 2c8ca0c..e324a82 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -752,6 +752,8 @@ class ts2pythonCompiler(Compiler):
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
+                if 'identifier' not in func_decl:
+                    continue  # call signatures and special functions have no name
                 name = func_decl['identifier'].content
                 if keyword.iskeyword(name):
                     name += '_'
-- 
2.43.0


From e0bd36d52bcd2d9106407b1cd4ed4bedec8e5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 08/66] fix: the type of rest-arguments was dropped, if it was
 written as generic type, e.g. Array<string>

---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e324a82..57b977d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -874,10 +874,12 @@ class ts2pythonCompiler(Compiler):
 
     def on_arg_tail(self, node):
         argname = self.compile(node["identifier"])
-        if 'array_of' in node:
+        if 'array_of' in node or 'generic_type' in node:
             self.obj_name.append(to_typename(argname))
-            type = self.compile(node['array_of'])[5:-1]
+            type = self.compile_type_expression(node, node[-1])
             self.obj_name.pop()
+            if type[0:5] == 'List[':
+                type = type[5:-1]
             return f'*{argname}: {type}'
         else:
             return '*' + argname
-- 
2.43.0


From 39d6451d1c1a57c9d7d7ed0c13af83c08620dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 09/66] fix: the type of a literal floating-point-number is
 float, not str

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 57b977d..e66486b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1013,7 +1013,7 @@ class ts2pythonCompiler(Compiler):
                     _ = int(literal)
                     return 'int'
                 except ValueError:
-                    return 'str'
+                    return 'float'
             elif literal_typ == 'boolean':
                 return 'bool'
             else:
-- 
2.43.0


From 391486b810535461e93deb4dbbe33dbd4a939935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 10/66] fix: recursive references in a type-alias must be
 quoted, because the alias is not yet defined

---
 ts2pythonParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e66486b..05e8eb2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -731,11 +731,14 @@ class ts2pythonCompiler(Compiler):
                     in ('namespace', 'enum', 'virtual_enum'):
                 preface = ('# commented out, because there is already an '
                            'enumeration with the same name\n# ' + preface)
+                is_new_type = False
             else:
-                self.add_to_known_types(node, alias, 'type_alias')
+                is_new_type = True
             self.local_classes.append([])
             self.optional_keys.append([])
             types = self.compile(node['types'])
+            if is_new_type:  # only now, so that recursive references are quoted
+                self.add_to_known_types(node, alias, 'type_alias')
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
-- 
2.43.0


From 91f5bcfa9f0728d1df80c6252cfe7730b8fa7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 11/66] fix: decorated anonymous interfaces and type names
 starting with 'class' were mixed up

---
 ts2pythonParser.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 05e8eb2..6065bb4 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -408,6 +408,18 @@ def includes_none(type_expression: str) -> bool:
     return re.search(r'(?<![\w.])None(?![\w.])', expr) is not None
 
 
+def is_class_definition(code: str) -> bool:
+    r"""Returns True, if a rendered type is the definition of a class and
+    not just a type expression::
+
+        >>> is_class_definition('class A_0(TypedDict):\n    a: str')
+        True
+        >>> is_class_definition('classification')
+        False
+    """
+    return re.match(r'(?:@.*\n)?class\s', code) is not None
+
+
 def to_dict(declarations: str) -> str:
     r"""Converts a sequence of declarations to a dictionary.
     Example::
@@ -788,7 +800,7 @@ class ts2pythonCompiler(Compiler):
         T = self.compile_type_expression(node, node['types']) \
             if 'types' in node else 'Any'
         typename = self.obj_name.pop()
-        if T[0:5] == 'class':
+        if is_class_definition(T):
             self.local_classes[-1].append(T)
             T = typename  # substitute typename for type
         if 'optional' in node:
@@ -947,7 +959,7 @@ class ts2pythonCompiler(Compiler):
         self.obj_name[-1] = obj_name
         for i in range(len(union)):
             typ = union[i]
-            if typ[0:5] == 'class':
+            if is_class_definition(typ):
                 k = typ.rfind('\nclass')
                 m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
                 assert m, typ
-- 
2.43.0


From d5a2e3a69776ab907df45735b237d1cc66da3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 12/66] fix: forward-references to types with a reserved name
 were not quoted

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 6065bb4..f0fd295 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1249,11 +1249,11 @@ class ts2pythonCompiler(Compiler):
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-        unknown_types = set(tn.content for tn in node.select('type_name')
-                            if not self.is_known_type(tn.content))
+        unknown_types = set(self.on_name(tn) for tn in node.select('type_name'))
+        unknown_types = set(typ for typ in unknown_types if not self.is_known_type(typ))
         type_expression = self.compile(type_node)
         for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
+            rx = re.compile(r"(?:(?<=[^\w'])|^)" + re.escape(typ) + r"(?:(?=[^\w'])|$)")
             segments = type_expression.split("'")
             for i in range(0, len(segments), 2):
                 segments[i] = rx.sub(f"'{typ}'", segments[i])
-- 
2.43.0


From cc982c612b3793c6ec440a90456cf9dff104290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 13/66] fix: an empty anonymous interface raised an
 AssertionError, if rendered functionally

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f0fd295..a1eaaa8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -428,7 +428,7 @@ def to_dict(declarations: str) -> str:
         >>> print(to_dict(decls))
         {"name": str, "version": int}
     """
-    entries = declarations.split('\n')
+    entries = declarations.split('\n') if declarations != 'pass' else []
     for i in range(len(entries)):
         k = entries[i].find(":")
         assert k >= 0
-- 
2.43.0


From bcf500fea7b71e937c6b93180d3538f2ba9d53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 14/66] fix: an anonymous interface as return type of a
 top-level function raised an AssertionError, if rendered on toplevel

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a1eaaa8..8489c84 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -995,7 +995,8 @@ class ts2pythonCompiler(Compiler):
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "toplevel":
             return ''.join([self.render_local_classes(),
-                            self.render_class_header('_'.join(self.obj_name[1:]), '') + "    ",
+                            self.render_class_header('_'.join(self.obj_name[1:] or self.obj_name), '')
+                           + "    ",
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
-- 
2.43.0


From cdf543cd650770d3fe464a79348eae60125d5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 15/66] fix: interfaces that extend a generic TypedDict with
 type arguments are TypedDicts, too

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8489c84..34feae6 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -697,7 +697,7 @@ class ts2pythonCompiler(Compiler):
                 if tps and (not self.use_variadic_generics
                             or 'function' in node['declarations_block'])\
                 else ''
-        if any(bc not in self.typed_dicts for bc in base_class_list):
+        if any(bc.split('[')[0] not in self.typed_dicts for bc in base_class_list):
             force_base_class = ' '
         elif 'function' in node['declarations_block']:
             force_base_class = ' '  # do not derive from TypeDict
-- 
2.43.0


From 467ad83702c6dae633f19da54ea2ee702db88cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 16/66] fix: multi-line declarations inside of namespaces
 without functions were not indented

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 34feae6..55b6e4b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1097,7 +1097,7 @@ class ts2pythonCompiler(Compiler):
             header = ''
         namespace = []
         for child in node.children[1:]:
-            namespace.append(self.compile(child))
+            namespace.append(self.compile(child).lstrip('\n').replace('\n', '\n    '))
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
             # self.optional_keys.pop()?
-- 
2.43.0


From ca0f65bc0b105ede721f3c0e1f6b2c09349d817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 17/66] fix: an empty namespace was rendered as class without a
 body

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 55b6e4b..71647cd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1102,6 +1102,7 @@ class ts2pythonCompiler(Compiler):
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
             # self.optional_keys.pop()?
         namespace.insert(0, header)
+        if len(namespace) == 1:  namespace.append('pass')
         self.strip_type_from_const = save
         return '\n    '.join(namespace)
 
-- 
2.43.0


From 38b7706387268e0e5b5fb0d89a33d16f1d9ed0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 18/66] fix: names that begin with a keyword (e.g. letter,
 variant, readonlyFoo, anyOf) were torn apart by the parser

---
 ts2python.ebnf     | 88 ++++++++++++++++++++++++++++++----------------
 ts2pythonParser.py | 74 ++++++++++++++++++++++++--------------
 2 files changed, 105 insertions(+), 57 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 6c2985b..a8fec0e 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -17,9 +17,13 @@
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _quoted_identifier, _namespace, _part
+                _quoted_identifier, _namespace, _part,
+                EXPORT, DECLARE, INTERFACE, CLASS, EXTENDS, IMPLEMENTS, LET, VAR, FUNCTION, READONLY,
+                TYPE, NEW, NAMESPACE, IN, ENUM, CONST, IMPORT, FROM, AS, MODULE
 @ drop        = whitespace, no_comments, strings, EOF,
-                _array_ellipsis, _top_level_assignment, _top_level_literal
+                _array_ellipsis, _top_level_assignment, _top_level_literal,
+                EXPORT, DECLARE, INTERFACE, CLASS, EXTENDS, IMPLEMENTS, LET, VAR, FUNCTION, READONLY,
+                TYPE, NEW, NAMESPACE, IN, ENUM, CONST, IMPORT, FROM, AS, MODULE
 
 
 #######################################################################
@@ -31,7 +35,7 @@
 root        = document EOF
 document    = ~ { interface | type_alias | _namespace | enum | const | module
                 | _top_level_assignment | _array_ellipsis | _top_level_literal
-                | ["export"] declaration ";" | ["export"] function ";"
+                | [EXPORT] declaration ";" | [EXPORT] function ";"
                 | Import ";" }
 
 @interface_resume = /(?=export|$)/
@@ -43,7 +47,7 @@ document    = ~ { interface | type_alias | _namespace | enum | const | module
 @_top_level_literal_resume = /(?=export|$)/
 @module_resume = /(?=export|$)/
 
-module      = "declare" "module" _quoted_identifier "{" document "}"
+module      = DECLARE MODULE _quoted_identifier "{" document "}"
 
 
 #######################################################################
@@ -52,9 +56,9 @@ module      = "declare" "module" _quoted_identifier "{" document "}"
 #
 #######################################################################
 
-Import      = "import" [( symlist | symbol ) "from"] string
+Import      = IMPORT [( symlist | symbol ) FROM] string
 symlist     = "{" symbol { "," symbol } "}"
-symbol      = identifier | wildcard [ "as" alias ]
+symbol      = identifier | wildcard [ AS alias ]
 alias       = identifier
 wildcard    =   "*"
 
@@ -64,20 +68,20 @@ wildcard    =   "*"
 #
 #######################################################################
 
-interface   = ["export"] ["declare"] ("interface"|"class") §identifier [type_parameters]
+interface   = [EXPORT] [DECLARE] (INTERFACE|CLASS) §identifier [type_parameters]
               [extends] declarations_block [";"]
-extends     = ("extends" | "implements")
+extends     = (EXTENDS | IMPLEMENTS)
               (generic_type|type_name) { "," (generic_type|type_name)}
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
                           [";" map_signature] [";"|","]] "}"
-declaration = qualifiers ["let"|"var"] identifier [optional] !`(` [":" types]
+declaration = qualifiers [LET|VAR] identifier [optional] !`(` [":" types]
 
 
 # @function_resume = /(?=;)/
 
-function    = [["export"] [static]
-               ["function"] identifier [optional] [type_parameters]]
+function    = [[EXPORT] [static]
+               [FUNCTION] identifier [optional] [type_parameters]]
               "(" §[arg_list] ")" [":" types]
             | special
   arg_list  = (argument { "," argument } ["," arg_tail] | arg_tail) [","]
@@ -87,8 +91,8 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = "readonly"
-static      = "static"
+readonly    = /readonly(?!\w)/~
+static      = /static(?!\w)/~
 
 optional    = "?"
 
@@ -98,11 +102,11 @@ optional    = "?"
 #
 #######################################################################
 
-type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
+type_alias  = [EXPORT] TYPE §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
-type        = ["readonly"]
+type        = [READONLY]
             ( array_of | basic_type | generic_type | indexed_type
             | type_name !`(` | "(" types ")" | mapped_type
             | declarations_block | type_tuple | declarations_tuple
@@ -111,11 +115,11 @@ type        = ["readonly"]
 generic_type = type_name type_parameters
   type_parameters = "<" §parameter_types { "," parameter_types } ">"
   parameter_types = ["|"] parameter_type  { "|" parameter_type }
-  parameter_type  = [ "readonly" ]
+  parameter_type  = [ READONLY ]
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
-  extends_type = "extends" [keyof] (basic_type | type_name | mapped_type )
+  extends_type = EXTENDS [keyof] (basic_type | type_name | mapped_type )
   equals_type  = "=" (basic_type|type_name)
 
 array_of    = array_types "[]"
@@ -130,13 +134,13 @@ declarations_tuple = "[" declaration { "," declaration } "]"
 mapped_type = "{" map_signature [";"] "}"
 map_signature = index_signature ":" types
   index_signature = [readonly]
-                    "[" identifier (":" | ["in"] keyof | "in") type "]"
+                    "[" identifier (":" | [IN] keyof | IN) type "]"
                     [optional]
-  keyof = "keyof"
+  keyof = /keyof(?!\w)/~
 
 indexed_type = type_name "[" (type_name | literal) "]"
 
-func_type   = ["new"] "(" [arg_list] ")" "=>" types
+func_type   = [NEW] "(" [arg_list] ")" "=>" types
 
 #######################################################################
 #
@@ -146,14 +150,14 @@ func_type   = ["new"] "(" [arg_list] ")" "=>" types
 
 _namespace   = virtual_enum | namespace
 
-virtual_enum = ["export"] "namespace" identifier "{"
+virtual_enum = [EXPORT] NAMESPACE identifier "{"
               { interface | type_alias | enum | const
               | declaration ";" }  "}"
 
-namespace    = ["export"] "namespace" §identifier "{"
+namespace    = [EXPORT] NAMESPACE §identifier "{"
                { interface | type_alias | enum | const
-               | ["export"] declaration ";"
-               | ["export"] function ";" }  "}"
+               | [EXPORT] declaration ";"
+               | [EXPORT] function ";" }  "}"
 
 #######################################################################
 #
@@ -161,7 +165,7 @@ namespace    = ["export"] "namespace" §identifier "{"
 #
 #######################################################################
 
-enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
+enum        = [EXPORT] ENUM identifier §"{" item { "," item } [","] "}"
   item      = _quoted_identifier ["=" literal]
 
 #######################################################################
@@ -170,7 +174,7 @@ enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
 #
 #######################################################################
 
-const       = ["export"] "const" §declaration ["=" (literal | identifier)] ";"
+const       = [EXPORT] CONST §declaration ["=" (literal | identifier)] ";"
 _top_level_assignment = assignment
 assignment  = variable "=" (literal | variable) ";"  # no expressions, yet
 
@@ -186,7 +190,7 @@ _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
-boolean    = (`true` | `false`) ~
+boolean    = (`true` | `false`) !/\w/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
@@ -199,8 +203,32 @@ object     = "{" [ association { "," association } ] [","] "}"
 #
 #######################################################################
 
+# keywords end at word-boundaries, so that a keyword is not mistaken for
+# the beginning of a longer identifier, e.g. "let" in "letter"
+
+EXPORT     = /export(?!\w)/~
+DECLARE    = /declare(?!\w)/~
+INTERFACE  = /interface(?!\w)/~
+CLASS      = /class(?!\w)/~
+EXTENDS    = /extends(?!\w)/~
+IMPLEMENTS = /implements(?!\w)/~
+LET        = /let(?!\w)/~
+VAR        = /var(?!\w)/~
+FUNCTION   = /function(?!\w)/~
+READONLY   = /readonly(?!\w)/~
+TYPE       = /type(?!\w)/~
+NEW        = /new(?!\w)/~
+NAMESPACE  = /namespace(?!\w)/~
+IN         = /in(?!\w)/~
+ENUM       = /enum(?!\w)/~
+CONST      = /const(?!\w)/~
+IMPORT     = /import(?!\w)/~
+FROM       = /from(?!\w)/~
+AS         = /as(?!\w)/~
+MODULE     = /module(?!\w)/~
+
 basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
-               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) ~
+               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) !/\w/ ~
 
 #######################################################################
 #
@@ -210,8 +238,8 @@ basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
 
 variable   = name
 _quoted_identifier = identifier | '"' identifier §'"' | "'" identifier §"'"
-name       = !(`true`|`false`) _part {`.` _part} ~
-identifier = !(`true`|`false`) _part ~
+name       = !/(?:true|false)(?!\w)/ _part {`.` _part} ~
+identifier = !/(?:true|false)(?!\w)/ _part ~
   _part    = /(?!\d)\w+/
 INT         = [NEG] ( /[1-9][0-9]+/ | /[0-9]/ )
 NEG         = `-`
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 71647cd..73978a7 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "7bde6345f03305114d11de968cd6e5df"
+    source_hash__ = "de8b39611df27f4ee801f325f08f3f36"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_top_level_assignment$|_namespace$|EOF$|_quoted_identifier$|_array_ellipsis$|_top_level_literal$|FRAC$|INT$|DOT$|EXP$|_part$|NEG$)')
+    disposable__ = re.compile('(?:TYPE$|_top_level_assignment$|NEG$|LET$|_namespace$|MODULE$|FROM$|CLASS$|EOF$|INT$|IMPLEMENTS$|FRAC$|EXTENDS$|EXPORT$|_array_ellipsis$|ENUM$|EXP$|INTERFACE$|IN$|VAR$|_top_level_literal$|CONST$|_part$|DECLARE$|IMPORT$|NAMESPACE$|READONLY$|_quoted_identifier$|NEW$|DOT$|AS$|FUNCTION$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -156,17 +156,37 @@ class ts2pythonGrammar(Grammar):
     NEG = Text("-")
     INT = Series(Option(NEG), SmartRE(f'([1-9][0-9]+|[0-9])', '/[1-9][0-9]+/|/[0-9]/'))
     _part = RegExp('(?!\\d)\\w+')
-    identifier = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, dwsp__)
-    name = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
+    identifier = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, dwsp__)
+    name = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
-    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` ~')
+    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` !/\\w/ ~')
+    MODULE = Drop(SmartRE(f'(module(?!\\w))(?P<comment__>{WSP_RE__})', '/module(?!\\w)/ ~'))
+    AS = Drop(SmartRE(f'(as(?!\\w))(?P<comment__>{WSP_RE__})', '/as(?!\\w)/ ~'))
+    FROM = Drop(SmartRE(f'(from(?!\\w))(?P<comment__>{WSP_RE__})', '/from(?!\\w)/ ~'))
+    IMPORT = Drop(SmartRE(f'(import(?!\\w))(?P<comment__>{WSP_RE__})', '/import(?!\\w)/ ~'))
+    CONST = Drop(SmartRE(f'(const(?!\\w))(?P<comment__>{WSP_RE__})', '/const(?!\\w)/ ~'))
+    ENUM = Drop(SmartRE(f'(enum(?!\\w))(?P<comment__>{WSP_RE__})', '/enum(?!\\w)/ ~'))
+    IN = Drop(SmartRE(f'(in(?!\\w))(?P<comment__>{WSP_RE__})', '/in(?!\\w)/ ~'))
+    NAMESPACE = Drop(SmartRE(f'(namespace(?!\\w))(?P<comment__>{WSP_RE__})', '/namespace(?!\\w)/ ~'))
+    NEW = Drop(SmartRE(f'(new(?!\\w))(?P<comment__>{WSP_RE__})', '/new(?!\\w)/ ~'))
+    TYPE = Drop(SmartRE(f'(type(?!\\w))(?P<comment__>{WSP_RE__})', '/type(?!\\w)/ ~'))
+    READONLY = Drop(SmartRE(f'(readonly(?!\\w))(?P<comment__>{WSP_RE__})', '/readonly(?!\\w)/ ~'))
+    FUNCTION = Drop(SmartRE(f'(function(?!\\w))(?P<comment__>{WSP_RE__})', '/function(?!\\w)/ ~'))
+    VAR = Drop(SmartRE(f'(var(?!\\w))(?P<comment__>{WSP_RE__})', '/var(?!\\w)/ ~'))
+    LET = Drop(SmartRE(f'(let(?!\\w))(?P<comment__>{WSP_RE__})', '/let(?!\\w)/ ~'))
+    IMPLEMENTS = Drop(SmartRE(f'(implements(?!\\w))(?P<comment__>{WSP_RE__})', '/implements(?!\\w)/ ~'))
+    EXTENDS = Drop(SmartRE(f'(extends(?!\\w))(?P<comment__>{WSP_RE__})', '/extends(?!\\w)/ ~'))
+    CLASS = Drop(SmartRE(f'(class(?!\\w))(?P<comment__>{WSP_RE__})', '/class(?!\\w)/ ~'))
+    INTERFACE = Drop(SmartRE(f'(interface(?!\\w))(?P<comment__>{WSP_RE__})', '/interface(?!\\w)/ ~'))
+    DECLARE = Drop(SmartRE(f'(declare(?!\\w))(?P<comment__>{WSP_RE__})', '/declare(?!\\w)/ ~'))
+    EXPORT = Drop(SmartRE(f'(export(?!\\w))(?P<comment__>{WSP_RE__})', '/export(?!\\w)/ ~'))
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
-    boolean = SmartRE(f'(?P<:Text>true|false)(?P<comment__>{WSP_RE__})', '`true`|`false` ~')
+    boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
@@ -174,18 +194,18 @@ class ts2pythonGrammar(Grammar):
     _array_ellipsis = Drop(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal))))
     assignment = Series(variable, Series(Drop(Text("=")), dwsp__), Alternative(literal, variable), Series(Drop(Text(";")), dwsp__))
     _top_level_assignment = Drop(Synonym(assignment))
-    const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
+    const = Series(Option(EXPORT), CONST, declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
-    enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
-    keyof = Series(Text("keyof"), dwsp__)
-    readonly = Series(Text("readonly"), dwsp__)
+    enum = Series(Option(EXPORT), ENUM, identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
+    keyof = SmartRE(f'(keyof(?!\\w))(?P<comment__>{WSP_RE__})', '/keyof(?!\\w)/ ~')
+    readonly = SmartRE(f'(readonly(?!\\w))(?P<comment__>{WSP_RE__})', '/readonly(?!\\w)/ ~')
     optional = Series(Text("?"), dwsp__)
-    func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
-    extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
-    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(Series(Drop(Text("in")), dwsp__)), keyof), Series(Drop(Text("in")), dwsp__)), type, Series(Drop(Text("]")), dwsp__), Option(optional))
+    func_type = Series(Option(NEW), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
+    extends = Series(Alternative(EXTENDS, IMPLEMENTS), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
+    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(IN), keyof), IN), type, Series(Drop(Text("]")), dwsp__), Option(optional))
     map_signature = Series(index_signature, Series(Drop(Text(":")), dwsp__), types)
     mapped_type = Series(Series(Drop(Text("{")), dwsp__), map_signature, Option(Series(Drop(Text(";")), dwsp__)), Series(Drop(Text("}")), dwsp__))
-    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
+    extends_type = Series(EXTENDS, Option(keyof), Alternative(basic_type, type_name, mapped_type))
     declarations_tuple = Series(Series(Drop(Text("[")), dwsp__), declaration, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), declaration)), Series(Drop(Text("]")), dwsp__))
     type_tuple = Series(Series(Drop(Text("[")), dwsp__), types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), types)), Series(Drop(Text("]")), dwsp__))
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
@@ -193,35 +213,35 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    parameter_type = Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
+    parameter_type = Series(Option(READONLY), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
-    interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
-    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
+    interface = Series(Option(EXPORT), Option(DECLARE), Alternative(INTERFACE, CLASS), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
+    type_alias = Series(Option(EXPORT), TYPE, identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
-    namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
-    virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = Series(Text("static"), dwsp__)
+    namespace = Series(Option(EXPORT), NAMESPACE, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(EXPORT), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(EXPORT), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
+    virtual_enum = Series(Option(EXPORT), NAMESPACE, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
+    static = SmartRE(f'(static(?!\\w))(?P<comment__>{WSP_RE__})', '/static(?!\\w)/ ~')
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
     argument = Series(identifier, Option(optional), Option(Series(Series(Drop(Text(":")), dwsp__), types)))
     arg_tail = Series(Series(Drop(Text("...")), dwsp__), identifier, Option(Series(Series(Drop(Text(":")), dwsp__), Alternative(array_of, generic_type))))
-    symbol = Alternative(identifier, Series(wildcard, Option(Series(Series(Drop(Text("as")), dwsp__), alias))))
+    symbol = Alternative(identifier, Series(wildcard, Option(Series(AS, alias))))
     symlist = Series(Series(Drop(Text("{")), dwsp__), symbol, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), symbol)), Series(Drop(Text("}")), dwsp__))
-    Import = Series(Series(Drop(Text("import")), dwsp__), Option(Series(Alternative(symlist, symbol), Series(Drop(Text("from")), dwsp__))), string)
-    module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
+    Import = Series(IMPORT, Option(Series(Alternative(symlist, symbol), FROM)), string)
+    module = Series(DECLARE, MODULE, _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(READONLY), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
-    function.set(Alternative(Series(Option(Series(Option(Series(Drop(Text("export")), dwsp__)), Option(static), Option(Series(Drop(Text("function")), dwsp__)), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-    declaration.set(Series(qualifiers, Option(SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"')), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
+    function.set(Alternative(Series(Option(Series(Option(EXPORT), Option(static), Option(FUNCTION), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
+    declaration.set(Series(qualifiers, Option(Alternative(LET, VAR)), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
-    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
+    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(EXPORT), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(EXPORT), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
     resume_rules__ = {'interface': [re.compile(r'(?=export|$)')],
                       'type_alias': [re.compile(r'(?=export|$)')],
-- 
2.43.0


From 017c8079ef3bd988dd0991ceb1028fb62814dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 19/66] fix: function types with untyped parameters were
 rejected as syntax errors

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index a8fec0e..bd0e02a 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -108,7 +108,7 @@ types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
 type        = [READONLY]
             ( array_of | basic_type | generic_type | indexed_type
-            | type_name !`(` | "(" types ")" | mapped_type
+            | type_name !`(` | "(" types ")" !`=>` | mapped_type
             | declarations_block | type_tuple | declarations_tuple
             | literal | func_type )
 
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 73978a7..49c68e2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "de8b39611df27f4ee801f325f08f3f36"
+    source_hash__ = "98fcefa808aef022fb4cb1a53b355432"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:TYPE$|_top_level_assignment$|NEG$|LET$|_namespace$|MODULE$|FROM$|CLASS$|EOF$|INT$|IMPLEMENTS$|FRAC$|EXTENDS$|EXPORT$|_array_ellipsis$|ENUM$|EXP$|INTERFACE$|IN$|VAR$|_top_level_literal$|CONST$|_part$|DECLARE$|IMPORT$|NAMESPACE$|READONLY$|_quoted_identifier$|NEW$|DOT$|AS$|FUNCTION$)')
+    disposable__ = re.compile('(?:NAMESPACE$|DOT$|_array_ellipsis$|VAR$|_namespace$|READONLY$|NEW$|EXTENDS$|LET$|EOF$|_part$|DECLARE$|IMPLEMENTS$|IMPORT$|ENUM$|_top_level_assignment$|FRAC$|CLASS$|EXP$|MODULE$|AS$|INT$|_top_level_literal$|TYPE$|EXPORT$|IN$|_quoted_identifier$|FROM$|INTERFACE$|CONST$|FUNCTION$|NEG$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -235,7 +235,7 @@ class ts2pythonGrammar(Grammar):
     module = Series(DECLARE, MODULE, _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(READONLY), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(READONLY), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__), NegativeLookahead(Text("=>"))), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
     function.set(Alternative(Series(Option(Series(Option(EXPORT), Option(static), Option(FUNCTION), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-- 
2.43.0


From 39577c9f9f9d134d9a8ab6283523a2371f4cd971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 20/66] fix: untyped parameters of function types were rendered
 by their name instead of Any

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 49c68e2..a40131c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -904,7 +904,8 @@ class ts2pythonCompiler(Compiler):
             arg_list = [self.compile(nd) for nd in node.children]
             if any(arg[0:1] == '*' for arg in arg_list):
                 return '...'
-            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
+            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) if 'types' in nd or 'optional' in nd
+                             else 'Any' for nd, arg in zip(node.children, arg_list))
         return ', '.join(self.compile(nd) for nd in node.children)
 
     def on_arg_tail(self, node):
-- 
2.43.0


From d146f35288b8b561ba530ba2f6a0150acf5980cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 21/66] fix: index signatures besides other members were
 dropped silently

---
 ts2pythonParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a40131c..f442652 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -807,6 +807,10 @@ class ts2pythonCompiler(Compiler):
 
     def on_declarations_block(self, node) -> str:
         self.mark_overloaded_functions(node)
+        if 'map_signature' in node:
+            self.tree.new_error(node['map_signature'],
+                'Index signatures besides other members are not supported and will be ignored.',
+                UNSUPPORTED_WARNING)
         # declarations = '\n'.join(self.compile(nd) for nd in node
         #                          if nd.name in ('declaration', 'function'))
         raw_decls = [self.compile(nd) for nd in node
-- 
2.43.0


From dce2ef57881f6a2e147876f8939107f1938f3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 22/66] fix: command line options that had no effect or failed:
 -k, -p 604, -p 646 and -p with ~

---
 ts2pythonParser.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f442652..c6725c0 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1569,7 +1569,8 @@ def main():
     from DHParser.configuration import read_local_config
     read_local_config(os.path.join(scriptpath, 'ts2python/ts2pythonParser.ini'))
 
-    if args.debug or args.compatibility or args.base or args.decorator or args.peps or args.anonymous:
+    if args.debug or args.compatibility or args.base or args.decorator or args.peps \
+            or args.anonymous or args.comments:
         access_presets()
         if args.debug is not None:
             log_dir = 'LOGS'
@@ -1590,9 +1591,12 @@ def main():
                 set_preset_value('ts2python.UseVariadicGenerics', True, allow_new_key=True)
             if version_info >= (3, 12):
                 set_preset_value('ts2python.UseTypeParameters', True, allow_new_key=True)
-        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip())
-        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip())
-        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip())
+        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip(),
+                                        allow_new_key=True)
+        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip(),
+                                             allow_new_key=True)
+        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip(),
+                                             allow_new_key=True)
         if args.peps:
             args_peps = [pep.strip() for pep in args.peps]
             all_peps = { '435',  '584',  '586',  '604',  '646',  '655',
@@ -1607,12 +1611,13 @@ def main():
                 sys.exit(1)
             for pep in args_peps:
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
+                pep = pep.lstrip('~')
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
-                if pep == '604':  set_preset_value('ts2python.TypeUnion', **kwargs)
-                if pep == '646': set_preset_value('tsPython.UseVariadicGenerics', **kwargs)
+                if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
+                if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
-        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
+        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True, allow_new_key=True)
         finalize_presets()
         _ = get_config_values('ts2python.*')  # fill config value cache
 
-- 
2.43.0


From 2fa7d0364f38000fd361dfcfcde7f1aec23b4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 23/66] fix: KeepMultilineComments crashed or garbled the
 output, depending on the position of the comments

---
 ts2pythonParser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c6725c0..45a6c7e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -448,7 +448,8 @@ def to_dict(declarations: str) -> str:
         >>> print(to_dict(decls))
         {"name": str, "version": int}
     """
-    entries = declarations.split('\n') if declarations != 'pass' else []
+    entries = [entry for entry in declarations.split('\n')
+               if entry and entry != 'pass' and entry[0:1] != '#']
     for i in range(len(entries)):
         k = entries[i].find(":")
         assert k >= 0
@@ -482,6 +483,10 @@ TYPE_NAME_SUBSTITUTION = {
     'Error': 'Exception',
     'RegExp': 'str' }
 
+# nodes where comments will be preserved if "KeepMultilineComments" is set
+COMMENTED_NODES = frozenset({'root', 'document', 'type_alias', 'namespace', 'virtual_enum',
+                             'declarations_block', 'declarations_tuple'})
+
 
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
@@ -562,6 +567,11 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        # drop comments in the midst of a construct, e.g. between the alternatives of a union
+        for nd in root.select_if(lambda nd: nd.children and nd.name not in COMMENTED_NODES,
+                                 include_root=True):
+            if any(child.name == 'comment__' for child in nd.children):
+                nd.result = tuple(child for child in nd.children if child.name != 'comment__')
         self.tree.stage = 'py'
         return None
 
@@ -612,8 +622,7 @@ class ts2pythonCompiler(Compiler):
         return ""
 
     def on_root(self, node) -> str:
-        assert len(node.children) == 1
-        return self.compile(node.children[0])
+        return '\n\n'.join(self.compile(child) for child in node.children)
 
     def on_document(self, node) -> str:
         if 'module' in node and isinstance(node['module'], Sequence) > 1:
@@ -1111,7 +1120,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name == 'const' for child in node.children[1:]):
+        if all(child.name in ('const', 'comment__') for child in node.children[1:]):
             if all(nd['literal'][0].name == 'integer'
                    for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
-- 
2.43.0


From 537f9b77e5997a24e4a4882b833294d8bd989d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 24/66] fix: every namespace with functions provoked a warning
 that it had already been defined

---
 ts2pythonParser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 45a6c7e..7c83430 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1166,7 +1166,6 @@ class ts2pythonCompiler(Compiler):
         if local_classes:
             declarations.insert(1, local_classes)
         self.known_types.pop()
-        self.add_to_known_types(node, name, 'namespace')
         self.local_classes.pop()
         self.optional_keys.pop()
         self.scope_type.pop()
-- 
2.43.0


From 34b3213ae506adc5031e4725e91a7650e7d96e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 25/66] fix: unions with literals raised an IndexError, if
 alternatives coincide, e.g. null and undefined

---
 ts2pythonParser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7c83430..04650ef 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -971,6 +971,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_types(self, node) -> str:
         union = []
+        is_literal = []
         i = 0
 
         obj_name = self.obj_name[-1]
@@ -988,6 +989,7 @@ class ts2pythonCompiler(Compiler):
             self.func_name = save
             if typ not in union:
                 union.append(typ)
+                is_literal.append(nd[0].name == 'literal')
                 i += 1
             self.obj_name[-1] = obj_name_stub
         self.obj_name[-1] = obj_name
@@ -1001,15 +1003,14 @@ class ts2pythonCompiler(Compiler):
                 self.local_classes[-1].append(typ)
                 union[i] = cname
         preface = ''
-        if self.use_literal_type and \
-                any(nd[0].name == 'literal' for nd in node.children):
-            if all(nd[0].name == 'literal' for nd in node.children):
+        if self.use_literal_type and any(is_literal):
+            if all(is_literal):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
             new_union = []
             literal_package = []
-            for i, nd in enumerate(node.children):
-                if nd[0].name == 'literal':
+            for i in range(len(union)):
+                if is_literal[i]:
                     literal_package.append(union[i])
                 else:
                     if literal_package:
-- 
2.43.0


From 7d46c1cc83995c5070aca9276f03194fc04c425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 26/66] fix: values of string literal types were mangled by the
 quoting of forward references

---
 ts2pythonParser.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 04650ef..589bb9b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -25,6 +25,7 @@ permissions and limitations under the License.
 #
 #######################################################################
 
+import ast
 import datetime
 import keyword
 from functools import partial, lru_cache
@@ -409,6 +410,27 @@ def to_varname(typename: str) -> str:
     return typename[0].lower() + (typename[1:-1] if typename[-1:] == '_' else typename[1:])
 
 
+RX_LITERAL_OR_QUOTE = re.compile(
+    r'''(?P<literal>Literal\[(?:"[^"\n]*"|'[^'\n]*'|[^\]"'])*\])|["']''')
+RX_STRING = re.compile(r'''"[^"]*"|'([^'"]*)'|'[^']*\'''')
+RX_QUOTED = re.compile(r'''("[^"\n]*"|'(?:[^'\\\n]|\\.)*')''')
+
+
+def unquote(type_expression: str) -> str:
+    """Removes the quotes of forward-references, but not those of the values
+    of Literal-types::
+
+        >>> unquote("List['Literal[\\"a\\"] | Message']")
+        'List[Literal["a"] | Message]'
+    """
+    if RX_QUOTED.fullmatch(type_expression):
+        type_expression = ast.literal_eval(type_expression)
+    return RX_LITERAL_OR_QUOTE.sub(
+        lambda m: RX_STRING.sub(lambda s: s.group() if s.group(1) is None else f'"{s.group(1)}"',
+                                m.group('literal') or ''),
+        type_expression)
+
+
 def includes_none(type_expression: str) -> bool:
     """Returns True, if None is an alternative of the given type-union itself.
     A None inside the parameters of another type does not count::
@@ -963,8 +985,7 @@ class ts2pythonCompiler(Compiler):
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
                 # union = [typ.strip("'").strip('"') for typ in union]
-                union = [typ.replace("'", '').replace('"', '') for typ in union]
-                return f"{preface}'{' | '.join(union)}'"
+                return preface + repr(' | '.join(unquote(typ) for typ in union))
             return preface + ' | '.join(union)
         else:
             return preface + f"Union[{', '.join(union)}]"
@@ -1290,13 +1311,13 @@ class ts2pythonCompiler(Compiler):
         type_expression = self.compile(type_node)
         for typ in unknown_types:
             rx = re.compile(r"(?:(?<=[^\w'])|^)" + re.escape(typ) + r"(?:(?=[^\w'])|$)")
-            segments = type_expression.split("'")
+            segments = RX_QUOTED.split(type_expression)
             for i in range(0, len(segments), 2):
                 segments[i] = rx.sub(f"'{typ}'", segments[i])
-            type_expression = "'".join(segments)
+            type_expression = ''.join(segments)
             # type_expression = rx.sub(f"'{typ}'", type_expression)
-        if type_expression[0:1] == "'":
-            type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
+        if type_expression[0:1] == "'" and not RX_QUOTED.fullmatch(type_expression):
+            type_expression = repr(unquote(type_expression))
         return type_expression
 
     def on_array_of(self, node) -> str:
-- 
2.43.0


From d3134f65bb3b27f4735bd196a05fab35ac901d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 27/66] fix: types declared inside of a namespace without
 functions were considered as known outside of it

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 589bb9b..5437a09 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1152,8 +1152,10 @@ class ts2pythonCompiler(Compiler):
         else:
             header = ''
         namespace = []
+        self.known_types.append(dict())
         for child in node.children[1:]:
             namespace.append(self.compile(child).lstrip('\n').replace('\n', '\n    '))
+        self.known_types.pop()
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
             # self.optional_keys.pop()?
-- 
2.43.0


From 63e47087e13764b12c4682e34e6af5b87af2d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 28/66] fix: json_validation did not check the contents of
 containers in TypedDicts and rejected unions, Any and enums inside of
 containers

---
 ts2python/json_validation.py | 93 +++++++++++++++---------------------
 1 file changed, 38 insertions(+), 55 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..ef07f1f 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -43,6 +43,8 @@ except (ImportError, ModuleNotFoundError):
         from .typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
             get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
 
+if sys.version_info >= (3, 10):
+    from types import UnionType
 if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
 
@@ -56,13 +58,8 @@ def strdata(data: Any) -> str:
 
 
 def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
-    """Resolves all forward references found in T."""
-    if isinstance(T, _GenericAlias):
-        O = get_origin(T)
-        if inspect.isclass(O):
-            return O
-        else:
-            T = O[get_args(T)]
+    """Resolves T, if T is a forward reference, and reduces parameterized
+    generic TypedDicts to the TypedDict-class proper."""
     if isinstance(T, ForwardRef):
         if Ur_T is None:  Ur_T = T
         if sys.version_info >= (3, 9, 0):
@@ -70,12 +67,9 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
                             recursive_guard=set())
         else:
             T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__)
-        # T = resolve_forward_refs(T, Ur_T)
-        return T
-    elif str(T).find('ForwardRef') >= 0:
-        if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
+    O = get_origin(T)
+    if is_TypedDictClass(O):
+        return O
     return T
 
 
@@ -96,6 +90,23 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
+def is_union(typ) -> bool:
+    """True, if typ is a union-type, including Optional[...] and X | Y."""
+    origin = get_origin(typ)
+    return origin is Union or (sys.version_info >= (3, 10) and origin is UnionType)
+
+
+def matches_any(val: Any, union_typ, Ur_T: type = None) -> bool:
+    """True, if value `val` is of (at least) one of the alternatives of a union."""
+    for typ in get_args(union_typ):
+        try:
+            validate_type(val, resolve_forward_refs(typ, Ur_T))
+            return True
+        except (TypeError, ValueError):
+            pass
+    return False
+
+
 def validate_type(val: Any, typ):
     """Raises a TypeError if value `val` is not of type `typ`.
     In particualr, `validate_type()` can be used to validate
@@ -118,10 +129,18 @@ def validate_type(val: Any, typ):
     Type error(s) in dictionary of type <class 'json_validation.Position'>:
     Field character: 'A' is not a <class 'int'>, but a <class 'str'>
     """
+    typ = resolve_forward_refs(typ)
+    if typ is Any or isinstance(typ, TypeVar):
+        return
+    if typ is None:
+        typ = type(None)
     if is_TypedDictClass(typ):
         if not isinstance(val, Dict):
             raise TypeError(f"{val} is not even a dictionary")
         validate_TypedDict(val, typ)
+    elif is_union(typ):
+        if not matches_any(val, typ):
+            raise TypeError(f"{val} is not of type {typ}")
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ)
     else:
@@ -148,18 +167,8 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
-    if is_TypedDictClass(item_type):
-        for val in sequence:
-            if not isinstance(val, Dict):
-                raise TypeError(f"{val} is not of type {item_type}")
-            validate_TypedDict(val, item_type)
-    elif hasattr(item_type, '__args__'):
-        for val in sequence:
-            validate_compound_type(val, item_type)
-    else:
-        for val in sequence:
-            if not isinstance(val, item_type):
-                raise TypeError(f"{val} is not of type {item_type}")
+    for val in sequence:
+        validate_type(val, item_type)
 
 
 def validate_compound_type(value: Any, T):
@@ -247,10 +256,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
+        field_type = resolve_forward_refs(field_type, T)
         if is_TypedDictClass(field_type):
             value = D[field]
             if isinstance(value, Dict):
@@ -258,38 +264,15 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             else:
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not of {field_type}, "
                                    f"but of type {type(D[field])}")
-        elif get_origin(field_type) is Union:
+        elif is_union(field_type):
             value = D[field]
-            for union_typ in field_type.__args__:
-                union_typ = resolve_forward_refs(union_typ, T)
-                if isinstance(union_typ, ForwardRef):
-                    if sys.version_info >= (3, 9):
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__,
-                                                        recursive_guard=set())
-                    else:
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__)
-                if is_TypedDictClass(union_typ):
-                    if isinstance(value, Dict):
-                        try:
-                            validate_TypedDict(value, union_typ)
-                            break
-                        except TypeError:
-                            pass
-                elif hasattr(union_typ, '__args__'):
-                    try:
-                        validate_compound_type(value, union_typ)
-                        break
-                    except TypeError:
-                        pass
-                elif isinstance(value, union_typ):
-                    break
-            else:
+            if not matches_any(value, field_type, T):
                 # TODO: bugfix?
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not any of "
                                    f"{field_type}, but of type {type(D[field])}")
         elif hasattr(field_type, '__args__'):
             validate_compound_type(D[field], field_type)
-        elif isinstance(field_type, TypeVar):
+        elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
         elif not isinstance(D[field], field_type):
             if issubclass(field_type, Enum):
-- 
2.43.0


From 01afa0b4694e6bd8c0a46981a04b6305142ab1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 29/66] fix: validation rejected integral numbers, where
 TypeScript has number

---
 ts2python/json_validation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index ef07f1f..e8bea0e 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -90,6 +90,14 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
+
+def is_instance(val: Any, typ: type) -> bool:
+    """Like isinstance(), but accepts integral numbers as float: The type number
+    of TypeScript is mapped on float, but JSON-data may contain just "1"."""
+    return isinstance(val, typ) \
+        or (typ is float and isinstance(val, int) and not isinstance(val, bool))
+
+
 def is_union(typ) -> bool:
     """True, if typ is a union-type, including Optional[...] and X | Y."""
     origin = get_origin(typ)
@@ -144,7 +152,7 @@ def validate_type(val: Any, typ):
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ)
     else:
-        if not isinstance(val, typ):
+        if not is_instance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
                 validate_enum(val, typ)
             else:
@@ -274,7 +282,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             validate_compound_type(D[field], field_type)
         elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
-        elif not isinstance(D[field], field_type):
+        elif not is_instance(D[field], field_type):
             if issubclass(field_type, Enum):
                 validate_enum(D[field], field_type)
             else:
-- 
2.43.0


From bdd221484ee4ab072493e4892e8db6a063609175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 30/66] fix: type_check rejected calls that leave out
 parameters with a default value and functions with *args or **kwargs

---
 ts2python/json_validation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index e8bea0e..fda475a 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -336,6 +336,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
     """
     arg_names = func.__code__.co_varnames[:func.__code__.co_argcount]
     arg_types = get_type_hints(func)
+    parameters = inspect.signature(func).parameters
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
@@ -346,8 +347,15 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         nonlocal arg_names, arg_types, return_type
         arg_dict = {**dict(zip(arg_names, args)), **kwargs}
         for name, typ in arg_types.items():
+            param = parameters[name]
             try:
-                validate_type(arg_dict[name], typ)
+                if param.kind == param.VAR_POSITIONAL:
+                    validate_uniform_sequence(args[len(arg_names):], typ)
+                elif param.kind == param.VAR_KEYWORD:
+                    validate_uniform_sequence(
+                        [val for key, val in kwargs.items() if key not in parameters], typ)
+                elif name in arg_dict or param.default is param.empty:
+                    validate_type(arg_dict[name], typ)
             except TypeError as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
-- 
2.43.0


From 6ad8db647bdc1114c80e4130a907eaff8784afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 31/66] fix: typeddict_shim took optional fields for required
 ones, if their type was written as X | None

---
 ts2python/typeddict_shim.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 761512d..8711061 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -125,6 +125,30 @@ def _type_check(arg, msg, is_argument=True, module=None):
     return arg
 
 
+def _is_union(origin) -> bool:
+    """True for the origins of Union[X, Y] as well as X | Y."""
+    if sys.version_info >= (3, 10):
+        from types import UnionType
+        return origin in (Union, UnionType)
+    return origin is Union
+
+
+def _union_with_None(type_expression: str) -> bool:
+    """True, if the type expression is a union (Union[X, None] or X | None)
+    and None is one of its alternatives."""
+    depth = 0
+    items = ['']
+    is_union = type_expression.startswith('Union[') and type_expression.endswith(']')
+    for ch in type_expression[6:-1] if is_union else type_expression:
+        if ch in '[(':  depth += 1
+        elif ch in '])':  depth -= 1
+        if depth == 0 and ch == (',' if is_union else '|'):
+            items.append('')
+        else:
+            items[-1] += ch
+    return len(items) > 1 and 'None' in [item.strip() for item in items]
+
+
 def _caller(depth=1, default='__main__'):
     try:
         return sys._getframe(depth + 1).f_globals.get('__name__', default)
@@ -164,13 +188,12 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
     for field, field_type in own_annotations.items():
         field_type_origin = get_origin(field_type)
         if (field_type_origin is NotRequired
-            or (field_type_origin is Union
+            or (_is_union(field_type_origin)
                 and type(None) in field_type.__args__)
             or (isinstance(field_type, ForwardRef)
                 and (field_type.__forward_arg__.startswith('Optional[')
                      or field_type.__forward_arg__.startswith('NotRequired')
-                     or (field_type.__forward_arg__.startswith('Union[')
-                         and field_type.__forward_arg__.endswith(', None]'))))):
+                     or _union_with_None(field_type.__forward_arg__)))):
             optional_keys.add(field)
             total = False
         else:
-- 
2.43.0


From ef2ad8ad5929ad21a98e2716f21361d311d8dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 32/66] fix: fields redeclared in a derived TypedDict were
 required and optional at the same time

---
 ts2python/typeddict_shim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 8711061..8e661f9 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -179,8 +179,10 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
 
     for base in bases:
         annotations.update(base.__dict__.get('__annotations__', {}))
-        required_keys.update(base.__dict__.get('__required_keys__', ()))
-        optional_keys.update(base.__dict__.get('__optional_keys__', ()))
+        base_required = base.__dict__.get('__required_keys__', frozenset())
+        base_optional = base.__dict__.get('__optional_keys__', frozenset())
+        required_keys = (required_keys - base_optional) | base_required
+        optional_keys = (optional_keys - base_required) | base_optional
 
     annotations.update(own_annotations)
 
@@ -195,9 +197,11 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
                      or field_type.__forward_arg__.startswith('NotRequired')
                      or _union_with_None(field_type.__forward_arg__)))):
             optional_keys.add(field)
+            required_keys.discard(field)
             total = False
         else:
             required_keys.add(field)
+            optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
     tp_dict.__required_keys__ = frozenset(required_keys)
-- 
2.43.0


From f5a57e5a3fed7229735f9f5d159cb298950529cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 33/66] fix: singledispatch lost the implementations for unions
 and generic types, e.g. Union[int, str] or List[str]

---
 ts2python/singledispatch_shim.py | 50 +++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..e91cde2 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -28,7 +28,7 @@ permissions and limitations under the License.
 
 
 from functools import _find_impl, get_cache_token, update_wrapper
-from typing import Union, ForwardRef
+from typing import Any, Union, ForwardRef, TypeVar
 import sys
 try:
     from typing import get_args, get_origin, get_type_hints
@@ -114,6 +114,22 @@ def singledispatch(func):
         return (_is_union_type(cls) and
                 all(isinstance(arg, type) for arg in get_args(cls)))
 
+    def _dispatch_classes(typ):
+        """Returns the list of the classes that an annotated type comprises,
+        e.g. [list] for List[str] or [int, str] for Union[int, str]."""
+        origin = get_origin(typ)
+        if _is_union_type(typ):
+            return [cls for arg in get_args(typ) for cls in _dispatch_classes(arg)]
+        if typ is Any or isinstance(typ, TypeVar):
+            return [object]
+        if isinstance(origin, type):
+            return [origin]
+        if isinstance(typ, type):
+            return [typ]
+        if str(origin).endswith('.Literal'):
+            return [type(arg) for arg in get_args(typ)]
+        raise TypeError(f'Cannot dispatch on {typ!r}')
+
     def register(cls, func=None):
         """generic_func.register(cls, func) -> func
 
@@ -155,7 +171,7 @@ def singledispatch(func):
             # only import typing if annotation parsing is necessary
             try:
                 argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
+                if isinstance(cls, ForwardRef):
                     raise NameError
             except NameError:
                 if cls != func:
@@ -165,28 +181,22 @@ def singledispatch(func):
                         pass  # TODO: Is this risky?
                         # raise(e)
                 registry.setdefault('postponed', []).append(cls)
+                dispatch_cache.clear()
                 return func
             except StopIteration:
                 func = method
-            if not _is_valid_dispatch_type(cls):
-                if _is_union_type(cls):
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} not all arguments are classes."
-                    )
-                else:
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} of type {type(cls)!r} is not a class."
-                    )
+            try:
+                _dispatch_classes(cls)
+            except TypeError:
+                raise TypeError(
+                    f"Invalid annotation for {argname!r}. "
+                    f"{cls!r} of type {type(cls)!r} is not a class."
+                )
 
-        if _is_union_type(cls):
-            for arg in get_args(cls):
-                registry[arg] = func
-        else:
-            registry[cls] = func
-        if cache_token is None and hasattr(cls, '__abstractmethods__'):
-            cache_token = get_cache_token()
+        for typ in _dispatch_classes(cls):
+            registry[typ] = func
+            if cache_token is None and hasattr(typ, '__abstractmethods__'):
+                cache_token = get_cache_token()
         dispatch_cache.clear()
         return func
 
-- 
2.43.0


From 412bd734dcff7fcaa0403bb6ddf4028c9ea5a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 34/66] fix: validation rejected arrays in JSON-data, where a
 tuple is expected

---
 ts2python/json_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fda475a..270f406 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -204,13 +204,14 @@ def validate_compound_type(value: Any, T):
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
-    elif isinstance(value, OT):
+    elif isinstance(value, OT) or (OT is tuple and isinstance(value, list)):
+        # JSON-data does not know tuples, only arrays
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
             validate_uniform_sequence(value.keys(), key_type)
             validate_uniform_sequence(value.values(), value_type)
-        elif isinstance(value, Tuple):
+        elif OT is tuple:
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
                 validate_uniform_sequence(value, T.__args__[0])
             else:
-- 
2.43.0


From 855094e2eae82236b2a9ad9df0f3811655fb6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 35/66] fix: fields were taken for optional, if the name of
 their class merely begins with NotRequired

---
 ts2python/typeddict_shim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 8e661f9..962a950 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -194,7 +194,7 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
                 and type(None) in field_type.__args__)
             or (isinstance(field_type, ForwardRef)
                 and (field_type.__forward_arg__.startswith('Optional[')
-                     or field_type.__forward_arg__.startswith('NotRequired')
+                     or field_type.__forward_arg__.startswith('NotRequired[')
                      or _union_with_None(field_type.__forward_arg__)))):
             optional_keys.add(field)
             required_keys.discard(field)
-- 
2.43.0


From b43acf58e66b84f059f7f150e416abec9110af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 36/66] fix: fields were required, if their type was a quoted
 union with a nested Optional

---
 ts2python/typeddict_shim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 962a950..d2857e6 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -146,7 +146,9 @@ def _union_with_None(type_expression: str) -> bool:
             items.append('')
         else:
             items[-1] += ch
-    return len(items) > 1 and 'None' in [item.strip() for item in items]
+    return len(items) > 1 and any(
+        item == 'None' or item.startswith('Optional[') or _union_with_None(item)
+        for item in (item.strip() for item in items))
 
 
 def _caller(depth=1, default='__main__'):
-- 
2.43.0


From aa5f76178ea5ac3cf0de45ca0bac112de37093d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:21 +0000
Subject: [PATCH 37/66] fix: singledispatch picked different implementations
 before and after the forward references have been resolved

---
 ts2python/singledispatch_shim.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index e91cde2..f08540b 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -79,25 +79,16 @@ def singledispatch(func):
         try:
             impl = dispatch_cache[cls]
         except KeyError:
+            register_postponed()
             try:
                 impl = registry[cls]
             except KeyError:
                 if 'postponed' in registry:
-                    postponed = registry['postponed']
-                    del registry['postponed']
-                    for postponed_cls in postponed:
-                        register(postponed_cls)
-                    if 'postponed' in registry:
-                        for f in registry['postponed']:
-                            get_type_hints(f)   # provoke NameError
-                        raise AssertionError('singledispatch: Internal Error: '
-                                             + str(registry['postponed']))
-                    try:
-                        impl = registry[cls]
-                    except KeyError:
-                        impl = _find_impl(cls, registry)
-                else:
-                    impl = _find_impl(cls, registry)
+                    for f in registry['postponed']:
+                        get_type_hints(f)   # provoke NameError
+                    raise AssertionError('singledispatch: Internal Error: '
+                                         + str(registry['postponed']))
+                impl = _find_impl(cls, registry)
             dispatch_cache[cls] = impl
         return impl
 
@@ -130,6 +121,12 @@ def singledispatch(func):
             return [type(arg) for arg in get_args(typ)]
         raise TypeError(f'Cannot dispatch on {typ!r}')
 
+    def register_postponed():
+        """Registers those postponed functions, the forward-references of which
+        can be resolved by now. (Any other functions will be postponed again.)"""
+        for postponed_cls in registry.pop('postponed', []):
+            register(postponed_cls)
+
     def register(cls, func=None):
         """generic_func.register(cls, func) -> func
 
@@ -193,6 +190,7 @@ def singledispatch(func):
                     f"{cls!r} of type {type(cls)!r} is not a class."
                 )
 
+        register_postponed()  # earlier registrations must not override this one later
         for typ in _dispatch_classes(cls):
             registry[typ] = func
             if cache_token is None and hasattr(typ, '__abstractmethods__'):
-- 
2.43.0


From 761b56d87d0c72c4f9d7f8f87209266c151667dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 38/66] fix: process_file wrote to a wrong file, if called
 without a name for the result, e.g. a.t.py for a.ts

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5437a09..3940aa3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1419,7 +1419,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     source_filename = source if is_filename(source) else ''
     if not result_filename:
         if source_filename:
-            result_filename = source_filename[:result_filename.rfind('.')] + '.py'
+            result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
-- 
2.43.0


From 085948648685b0a819bd80b0223c475eca05d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 39/66] fix: error messages were written with the encoding of
 the locale, though they are read as utf-8

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 3940aa3..fe851a7 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1442,7 +1442,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     if errors:
         err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
         err_filename = os.path.splitext(result_filename)[0] + err_ext
-        with open(err_filename, 'w') as f:
+        with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
         return err_filename
     return ''
-- 
2.43.0


From 29ff1f278a437886936f99cdca7cd8fb7fa271fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 40/66] fix: after an update of the parser, documents were
 still transpiled with the old parser, but marked as being up to date

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fe851a7..b41d5d0 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1551,7 +1551,7 @@ def main():
     parser_update = False
 
     def notify():
-        global parser_update
+        nonlocal parser_update
         parser_update = True
         print('recompiling ' + grammar_path)
 
-- 
2.43.0


From eb3e97dd1f457ade374521ec0eaa6292ee49eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 41/66] fix: FileNotFoundError instead of error messages, if
 the grammar contains errors

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b41d5d0..b050fd8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1557,7 +1557,7 @@ def main():
 
     if os.path.exists(grammar_path) and os.path.isfile(grammar_path):
         if not recompile_grammar(grammar_path, script_path, force=False, notify=notify):
-            error_file = base_path + '_ebnf_ERRORS.txt'
+            error_file = base_path + '_ebnf_MESSAGES.txt'
             with open(error_file, encoding="utf-8") as f:
                 print(f.read())
             sys.exit(1)
-- 
2.43.0


From 37a5d5f9d9a7aa8e0b97b09391031af7868874eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 42/66] fix: batch processing wrote the Python code into files
 with the extension .sxpr

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b050fd8..6843c4b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1386,7 +1386,7 @@ serializations = expand_table(dict([('*', ['sxpr'])]))
 #
 #######################################################################
 
-RESULT_FILE_EXTENSION = ".sxpr"  # Change this according to your needs!
+RESULT_FILE_EXTENSION = ".py"  # Change this according to your needs!
 
 
 def compile_src(source: str, target: str = "py") -> Tuple[Any, List[Error]]:
-- 
2.43.0


From 3858654348347a098b65921ad258e9ab80916891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 43/66] fix: the output directory was ignored, if specified as
 --out=DIR or -oDIR

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 6843c4b..9bd168a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1574,7 +1574,7 @@ def main():
     parser.add_argument('files', nargs='+')
     parser.add_argument('-D', '--debug', action='store_const', const='debug',
                         help='Store debug information in LOGS subdirectory')
-    parser.add_argument('-o', '--out', nargs=1, default=['out'],
+    parser.add_argument('-o', '--out', nargs=1,
                         help='Output directory for batch processing')
     parser.add_argument('-v', '--verbose', action='store_const', const='verbose',
                         help='Verbose output')
@@ -1595,7 +1595,7 @@ def main():
                         help="Preserve (multiline) comments")
 
     args = parser.parse_args()
-    file_names, out, log_dir = args.files, args.out[0], ''
+    file_names, out, log_dir = args.files, args.out[0] if args.out else 'out', ''
 
     workdir = file_names[0] if os.path.isdir(file_names[0]) else os.path.dirname(file_names[0])
     from DHParser.configuration import read_local_config
@@ -1669,7 +1669,7 @@ def main():
             echo('Processing all files in directory: ' + dir_name)
             file_names = [os.path.join(dir_name, fn) for fn in os.listdir(dir_name)
                           if os.path.isfile(os.path.join(dir_name, fn))]
-        elif not ('-o' in sys.argv or '--out' in sys.argv):
+        elif not args.out:
             batch_processing = False
 
     if batch_processing:
-- 
2.43.0


From d282e3f571033c342b3bb59fd9934dbeb1df334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 44/66] fix: a result that has been written only in part, e.g.
 because the process was killed, was taken to be up to date

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9bd168a..d866de3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1429,7 +1429,8 @@ def process_file(source: str, result_filename: str = '') -> str:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
+        if m and m.groups()[-1] == source_hash(source) \
+                and result.find('##### END OF ts2python generated code') >= 0:
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-- 
2.43.0


From 16ae84d3a4a695ae7ddc91c3463febbfb236cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 45/66] fix: modules with Thenable could not be imported by
 Python 3.7 and 3.8, because typing.Coroutine requires three type arguments

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index d866de3..a41a7f5 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -343,7 +343,8 @@ if sys.version_info >= (3, 9, 0):
     # do not use list, tuple, dict, because contained types won't be forward ref'd
     from collections.abc import Coroutine
 else:
-    from typing import Union, List, Tuple, Optional, Dict, Set, Any, Generic, TypeVar, Callable, Coroutine
+    from typing import Union, List, Tuple, Optional, Dict, Set, Any, Generic, TypeVar, Callable
+    from typing import Awaitable as Coroutine  # typing.Coroutine requires three type arguments
 """
 
 TYPEDDICT_IMPORTS = """
-- 
2.43.0


From d2670a6064d7ff39dc7dcbbbfbcde0d2df6c70fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 46/66] fix: the LSP extractor looked for files that are
 included by included files in the wrong place

---
 demo/extract_ts_from_lsp_specs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 5f0b69e..97f028c 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -66,7 +66,9 @@ RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9/.]+?\.
 def download_specs(url: str) -> str:
     specfile = download_specfile(url)
     relurl_path = url[:url.rfind('/') + 1]
-    absurl_path = url[:url.find('_specifications/')] + '_includes/'
+    i = url.find('_specifications/')
+    if i < 0: i = url.find('_includes/')  # includes inside of included files
+    absurl_path = url[:i] + '_includes/'
     parts = []
     e = 0
     for m in RX_INCLUDE.finditer(specfile):
-- 
2.43.0


From 2bc7972a9954d164b376b7f28b25825fb9a4f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 47/66] fix: names declared in a namespace, and type parameters
 of methods, were taken to be visible inside of the classes nested therein

---
 ts2pythonParser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a41a7f5..ff87527 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -574,7 +574,9 @@ class ts2pythonCompiler(Compiler):
         return self.obj_name == ['TOPLEVEL_']
 
     def is_known_type(self, typename: str) -> bool:
-        for type_set in self.known_types:
+        # the body of a class can see the names of its own scope and global
+        # names, but not those of the classes (e.g. namespaces) that enclose it
+        for type_set in (self.known_types[0], self.known_types[-1]):
             if typename in type_set:
                 return True
         return False
@@ -1067,8 +1069,12 @@ class ts2pythonCompiler(Compiler):
         if typ.name in ('declarations_block', 'declarations_tuple'):
             self.local_classes.append([])
             self.optional_keys.append([])
+            is_class = self.base_class_name != "TypedDict" \
+                or self.render_anonymous in ("local", "toplevel")
+            if is_class:  self.known_types.append(dict())
             decls = self.compile(typ)
             result = self.render_declarations(decls)
+            if is_class:  self.known_types.pop()
             self.optional_keys.pop()
             self.local_classes.pop()
             return result
-- 
2.43.0


From 286d7ed9f11a226a1aa2d48981aa33079791628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 48/66] fix: anonymous interfaces were mixed up, if several of
 them occurred in the elements of a tuple, in nested unions or in the
 signatures of overloaded methods

---
 ts2pythonParser.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ff87527..b51c72e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1006,26 +1006,24 @@ class ts2pythonCompiler(Compiler):
             ending = obj_name_stub[n + 1:]
             if n >= 0 and (not ending or ending.isdecimal()):
                 obj_name_stub = obj_name_stub[:n]
-            self.obj_name[-1] = fname + obj_name_stub + '_' + str(i)
+            k = i
+            self.obj_name[-1] = fname + obj_name_stub + '_' + str(k)
+            while self.is_local_class(self.anonymous_name()):
+                k += 1
+                self.obj_name[-1] = fname + obj_name_stub + '_' + str(k)
             save = self.func_name
             self.func_name = ""
             typ = self.compile_type_expression(node, nd)
             self.func_name = save
+            if is_class_definition(typ):
+                self.local_classes[-1].append(typ)
+                typ = self.anonymous_name()
             if typ not in union:
                 union.append(typ)
                 is_literal.append(nd[0].name == 'literal')
                 i += 1
             self.obj_name[-1] = obj_name_stub
         self.obj_name[-1] = obj_name
-        for i in range(len(union)):
-            typ = union[i]
-            if is_class_definition(typ):
-                k = typ.rfind('\nclass')
-                m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
-                assert m, typ
-                cname = m.group(1)
-                self.local_classes[-1].append(typ)
-                union[i] = cname
         preface = ''
         if self.use_literal_type and any(is_literal):
             if all(is_literal):
@@ -1047,15 +1045,25 @@ class ts2pythonCompiler(Compiler):
         else:
             return self.render_union(preface, union)
 
+    def anonymous_name(self) -> str:
+        """Returns the name of the class for an anonymous interface at the current place."""
+        if self.base_class_name == "TypedDict" and self.render_anonymous == "toplevel":
+            return '_'.join(self.obj_name[1:] or self.obj_name)
+        return self.obj_name[-1]
+
+    def is_local_class(self, name: str) -> bool:
+        """Returns True, if there already is a class of that name among the local classes."""
+        return any(f"\nclass {name}{delimiter}" in '\n' + lc
+                   for lc in self.local_classes[-1] for delimiter in '(:')
+
     def render_declarations(self, decls) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-            return ''.join([self.render_class_header(self.obj_name[-1], '') + "    ",
+            return ''.join([self.render_class_header(self.anonymous_name(), '') + "    ",
                             self.render_local_classes().replace('\n', '\n    '),
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "toplevel":
             return ''.join([self.render_local_classes(),
-                            self.render_class_header('_'.join(self.obj_name[1:] or self.obj_name), '')
-                           + "    ",
+                            self.render_class_header(self.anonymous_name(), '') + "    ",
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
-- 
2.43.0


From 85e6e67527d15df63615cbecfd49b8754417ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 49/66] fix: properties of anonymous interfaces were put in
 quotes, if they have the same name as a type that is declared later

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b51c72e..973939b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1326,6 +1326,8 @@ class ts2pythonCompiler(Compiler):
         unknown_types = set(self.on_name(tn) for tn in node.select('type_name'))
         unknown_types = set(typ for typ in unknown_types if not self.is_known_type(typ))
         type_expression = self.compile(type_node)
+        if is_class_definition(type_expression):
+            return type_expression  # the types of its members are quoted, already
         for typ in unknown_types:
             rx = re.compile(r"(?:(?<=[^\w'])|^)" + re.escape(typ) + r"(?:(?=[^\w'])|$)")
             segments = RX_QUOTED.split(type_expression)
-- 
2.43.0


From 72ccd9c809ba1731526a014e24835740149aaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 50/66] fix: namespaces of constants without values were
 rendered as IntEnum without items

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 973939b..78caafc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1157,7 +1157,9 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name in ('const', 'comment__') for child in node.children[1:]):
+        if all(child.name == 'comment__'
+               or (child.name == 'const' and ('literal' in child or 'identifier' in child))
+               for child in node.children[1:]):
             if all(nd['literal'][0].name == 'integer'
                    for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
-- 
2.43.0


From 3936632fa7cb03b98e54e464e73390c9f688d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 51/66] fix: namespaces of constants were rendered as
 enumerations, even if enumerations are switched off

---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 78caafc..466d8dd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1160,8 +1160,10 @@ class ts2pythonCompiler(Compiler):
         if all(child.name == 'comment__'
                or (child.name == 'const' and ('literal' in child or 'identifier' in child))
                for child in node.children[1:]):
-            if all(nd['literal'][0].name == 'integer'
-                   for nd in node.select_children('const') if 'literal' in nd):
+            if not self.use_enums:
+                header = f'class {name}:'
+            elif all(nd['literal'][0].name == 'integer'
+                     for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
             else:
                 header =  f'class {name}(Enum):'
-- 
2.43.0


From e4c903f8dab7da8c510f2d0681f4a31f9fd0454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 52/66] fix: names of anonymous classes depended on the
 functions that have been declared earlier

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 466d8dd..3d0979d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -886,6 +886,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_function(self, node) -> str:
         is_constructor = False
+        outer_func_name = self.func_name
         if 'identifier' in node:
             name = self.compile(node["identifier"])
             self.func_name = name
@@ -910,6 +911,7 @@ class ts2pythonCompiler(Compiler):
         if self.is_toplevel() and self.local_classes[-1]:
             preface += self.render_local_classes()
             self.local_classes[-1] = []
+        self.func_name = outer_func_name
         decorator = node.get_attr('decorator', '')
         fallback = ""
         type_error = "raise TypeError(f'First argument {arg1} of single-dispatch " \
-- 
2.43.0


From 2ae08ada58f9a322e517a5ebf61f27574453630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 53/66] fix: Array<null> and Array<undefined> lost their
 element type

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 3d0979d..795f85f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1295,7 +1295,7 @@ class ts2pythonCompiler(Compiler):
     def on_generic_type(self, node) -> str:
         base_type = self.compile(node['type_name'])
         parameters = self.compile(node['type_parameters'])
-        if parameters == 'None':
+        if parameters == 'None' and base_type != 'List':
             return base_type
         else:
             return ''.join([base_type, '[', parameters, ']'])
-- 
2.43.0


From fe5a257bc34ecff4f599ee6da940ffb69ab3511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 54/66] fix: with RenderAnonymous=toplevel the anonymous
 interfaces inside of namespaces were not visible, where they were referred to

---
 ts2pythonParser.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 795f85f..b1942b4 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -761,7 +761,7 @@ class ts2pythonCompiler(Compiler):
         decls = self.compile(node['declarations_block'])
         interface = self.render_class_header(name, base_classes, force_base_class)
         self.base_classes[name] = base_class_list
-        if self.base_class_name == "TypedDict" and self.render_anonymous == "toplevel":
+        if self.renders_on_toplevel():
             interface = self.render_local_classes() + '\n' + interface
         else:
             interface += ('    ' + self.render_local_classes().replace('\n', '\n    ')).rstrip(' ')
@@ -1047,9 +1047,16 @@ class ts2pythonCompiler(Compiler):
         else:
             return self.render_union(preface, union)
 
+    def renders_on_toplevel(self) -> bool:
+        """Returns True, if the classes for anonymous interfaces are to be rendered on
+        the same level as the interface they occur in. Inside of a namespace they would
+        not be visible there."""
+        return self.base_class_name == "TypedDict" and self.render_anonymous == "toplevel" \
+            and 'namespace' not in self.scope_type
+
     def anonymous_name(self) -> str:
         """Returns the name of the class for an anonymous interface at the current place."""
-        if self.base_class_name == "TypedDict" and self.render_anonymous == "toplevel":
+        if self.renders_on_toplevel():
             return '_'.join(self.obj_name[1:] or self.obj_name)
         return self.obj_name[-1]
 
@@ -1059,14 +1066,14 @@ class ts2pythonCompiler(Compiler):
                    for lc in self.local_classes[-1] for delimiter in '(:')
 
     def render_declarations(self, decls) -> str:
-        if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-            return ''.join([self.render_class_header(self.anonymous_name(), '') + "    ",
-                            self.render_local_classes().replace('\n', '\n    '),
-                            decls.replace('\n', '\n    ')])
-        elif self.render_anonymous == "toplevel":
+        if self.renders_on_toplevel():
             return ''.join([self.render_local_classes(),
                             self.render_class_header(self.anonymous_name(), '') + "    ",
                             decls.replace('\n', '\n    ')])
+        elif self.base_class_name != "TypedDict" or self.render_anonymous in ("local", "toplevel"):
+            return ''.join([self.render_class_header(self.anonymous_name(), '') + "    ",
+                            self.render_local_classes().replace('\n', '\n    '),
+                            decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
         else:
@@ -1174,8 +1181,10 @@ class ts2pythonCompiler(Compiler):
             header = ''
         namespace = []
         self.known_types.append(dict())
+        self.scope_type.append('namespace')
         for child in node.children[1:]:
             namespace.append(self.compile(child).lstrip('\n').replace('\n', '\n    '))
+        self.scope_type.pop()
         self.known_types.pop()
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
-- 
2.43.0


From a05ca0d01d2438bd7c131a4b21c67e2398b3932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 55/66] fix: quotes of field names were dropped, if an
 anonymous interface rendered functionally occurs in the arguments of an
 unknown generic type

---
 ts2pythonParser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b1942b4..7093d89 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -412,17 +412,20 @@ def to_varname(typename: str) -> str:
 
 
 RX_LITERAL_OR_QUOTE = re.compile(
-    r'''(?P<literal>Literal\[(?:"[^"\n]*"|'[^'\n]*'|[^\]"'])*\])|["']''')
+    r'''(?P<literal>Literal\[(?:"[^"\n]*"|'[^'\n]*'|[^\]"'])*\]'''
+    r'''|TypedDict\("\w+"|"\w+"(?=:))|["']''')
 RX_STRING = re.compile(r'''"[^"]*"|'([^'"]*)'|'[^']*\'''')
 RX_QUOTED = re.compile(r'''("[^"\n]*"|'(?:[^'\\\n]|\\.)*')''')
 
 
 def unquote(type_expression: str) -> str:
     """Removes the quotes of forward-references, but not those of the values
-    of Literal-types::
+    of Literal-types and those of the names of TypedDicts and their fields::
 
         >>> unquote("List['Literal[\\"a\\"] | Message']")
         'List[Literal["a"] | Message]'
+        >>> unquote("'Box'[TypedDict(\\"Item_0\\", {\\"a\\": 'Message'})]")
+        'Box[TypedDict("Item_0", {"a": Message})]'
     """
     if RX_QUOTED.fullmatch(type_expression):
         type_expression = ast.literal_eval(type_expression)
-- 
2.43.0


From 8cdb71f6de1c4f085accd427dbb8a1c800d17ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 56/66] fix: aliases of types that are declared later are
 strings, but were referred to as if they were types, e.g. Alias | None

---
 ts2pythonParser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7093d89..9835f01 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -579,9 +579,10 @@ class ts2pythonCompiler(Compiler):
     def is_known_type(self, typename: str) -> bool:
         # the body of a class can see the names of its own scope and global
         # names, but not those of the classes (e.g. namespaces) that enclose it
-        for type_set in (self.known_types[0], self.known_types[-1]):
+        for type_set in (self.known_types[-1], self.known_types[0]):
             if typename in type_set:
-                return True
+                # a deferred alias is a string, e.g. in "A | None" it must not be evaluated
+                return type_set[typename] != 'deferred_alias'
         return False
 
     def add_to_known_types(self, node, typename: str, kind: str):
@@ -807,7 +808,8 @@ class ts2pythonCompiler(Compiler):
             self.optional_keys.append([])
             types = self.compile(node['types'])
             if is_new_type:  # only now, so that recursive references are quoted
-                self.add_to_known_types(node, alias, 'type_alias')
+                self.add_to_known_types(node, alias, 'deferred_alias'
+                                        if RX_QUOTED.fullmatch(types) else 'type_alias')
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
@@ -1163,7 +1165,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_virtual_enum(self, node) -> str:
         name = self.compile(node['identifier'])
-        if self.known_types[-1].get(name, '') == 'type_alias':
+        if self.known_types[-1].get(name, '') in ('type_alias', 'deferred_alias'):
             # silently overwrite type_alias
             self.known_types[-1][name] = 'virtual_enum'
         else:
-- 
2.43.0


From 9ad98fd6e8366549a855a3ce691320fcc828d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 57/66] fix: optional properties were not marked, if their type
 contains an anonymous interface rendered functionally that has a property of
 type null

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9835f01..032dd60 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -450,7 +450,7 @@ def includes_none(type_expression: str) -> bool:
     expr = re.sub(r'"[^"\n]*"|\'[^\'\n]*\'', '_', expr)
     nested = ''
     while nested != expr:
-        nested, expr = expr, re.sub(r'\[[^\[\]]*\]', '', expr)
+        nested, expr = expr, re.sub(r'[\[({][^\[\](){}]*[\])}]', '', expr)
     return re.search(r'(?<![\w.])None(?![\w.])', expr) is not None
 
 
-- 
2.43.0


From 28c0933a6c1372c40ae4f4d684114758d03c21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 58/66] fix: names that contain the name of an unknown type as
 one of their parts, e.g. ns.Foo and Foo, were torn apart by quotes

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 032dd60..18a84be 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1349,7 +1349,7 @@ class ts2pythonCompiler(Compiler):
         if is_class_definition(type_expression):
             return type_expression  # the types of its members are quoted, already
         for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + re.escape(typ) + r"(?:(?=[^\w'])|$)")
+            rx = re.compile(r"(?:(?<=[^\w'.])|^)" + re.escape(typ) + r"(?:(?=[^\w'.])|$)")
             segments = RX_QUOTED.split(type_expression)
             for i in range(0, len(segments), 2):
                 segments[i] = rx.sub(f"'{typ}'", segments[i])
-- 
2.43.0


From d28e63515f59d8a9e1601f811d993e2c85cce391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 59/66] fix: parameters of function types were dropped, if the
 text of a literal type contained an asterisk or '= None'

---
 ts2pythonParser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 18a84be..fd65c06 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1145,8 +1145,7 @@ class ts2pythonCompiler(Compiler):
     def on_func_type(self, node) -> str:
         if 'arg_list' in node:
             arg_list = self.compile(node["arg_list"])
-            if  arg_list == "..." or arg_list.find('= None') >= 0 \
-                    or arg_list.find('*') >= 0:
+            if any(arg.name == 'arg_tail' or 'optional' in arg for arg in node['arg_list']):
                 # See https://docs.python.org/3/library/typing.html#typing.Callable
                 args = '...'
             else:
-- 
2.43.0


From 6c84d243e1048c67724a62451c7ec34c94a99905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 60/66] fix: optional fields were rendered as type unions in
 spite of UseTypeUnion=False, if the text of a literal type contained a
 vertical bar

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fd65c06..ed5c685 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -874,7 +874,7 @@ class ts2pythonCompiler(Compiler):
                 if T.startswith('Union['):
                     if not includes_none(T):
                         T = T[:-1] + ', None]'
-                elif T.find('|') >= 0:
+                elif self.use_type_union and T.find('|') >= 0:
                     if not includes_none(T):
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
-- 
2.43.0


From 49baaee0c65083a19fcee2baa085271054179cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 61/66] fix: dispatching from several threads while
 registrations are postponed

---
 ts2python/singledispatch_shim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index f08540b..df82ef4 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -30,6 +30,7 @@ permissions and limitations under the License.
 from functools import _find_impl, get_cache_token, update_wrapper
 from typing import Any, Union, ForwardRef, TypeVar
 import sys
+import threading
 try:
     from typing import get_args, get_origin, get_type_hints
 except ImportError:
@@ -62,7 +63,18 @@ def singledispatch(func):
     registry = {}
     dispatch_cache = weakref.WeakKeyDictionary()
     cache_token = None
+    lock = threading.RLock()
 
+    def synchronized(method):
+        # another thread must not see the registry or the cache while postponed
+        # functions are being registered
+        def guarded(*args, **kwargs):
+            with lock:
+                return method(*args, **kwargs)
+
+        return update_wrapper(guarded, method)
+
+    @synchronized
     def dispatch(cls):
         """generic_func.dispatch(cls) -> <function implementation>
 
@@ -127,6 +139,7 @@ def singledispatch(func):
         for postponed_cls in registry.pop('postponed', []):
             register(postponed_cls)
 
+    @synchronized
     def register(cls, func=None):
         """generic_func.register(cls, func) -> func
 
-- 
2.43.0


From fd1ca8ae531fde195cdaebda47d3926e0565bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 62/66] fix: escape sequences of string literals that Python
 does not know

---
 ts2pythonParser.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ed5c685..8c10255 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -418,6 +418,24 @@ RX_STRING = re.compile(r'''"[^"]*"|'([^'"]*)'|'[^']*\'''')
 RX_QUOTED = re.compile(r'''("[^"\n]*"|'(?:[^'\\\n]|\\.)*')''')
 
 
+RX_ESCAPE = re.compile(r'\\(?:u\{([0-9A-Fa-f]+)\}|(.))')
+
+
+def convert_escapes(string: str) -> str:
+    r"""Converts those escape-sequences of a string literal that Python does
+    not know or that have a different meaning in Python::
+
+        >>> print(convert_escapes(r'"\u{1F600} \/ \n"'))
+        "\U0001f600 / \n"
+    """
+    def convert(m) -> str:
+        if m.group(1):
+            return f'\\U{int(m.group(1), 16):08x}'
+        return m.group() if m.group(2) in 'bfnrtvxu0123456789\\\'"' else m.group(2)
+
+    return RX_ESCAPE.sub(convert, string)
+
+
 def unquote(type_expression: str) -> str:
     """Removes the quotes of forward-references, but not those of the values
     of Literal-types and those of the names of TypedDicts and their fields::
@@ -1284,7 +1302,7 @@ class ts2pythonCompiler(Compiler):
         return {'true': 'True', 'false': 'False'}[node.content]
 
     def on_string(self, node) -> str:
-        return node.content
+        return convert_escapes(node.content)
 
     def on_array(self, node) -> str:
         return '[' + \
-- 
2.43.0


From 66d6c56b8721f8b6633dd948aa6fd8380a1515c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 63/66] fix: classes of anonymous interfaces must not take the
 names of declared types

---
 ts2pythonParser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8c10255..18b81e1 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -531,6 +531,10 @@ TYPE_NAME_SUBSTITUTION = {
 COMMENTED_NODES = frozenset({'root', 'document', 'type_alias', 'namespace', 'virtual_enum',
                              'declarations_block', 'declarations_tuple'})
 
+# nodes that bind a name that must not be taken for the class of an anonymous interface
+DECLARING_NODES = frozenset({'interface', 'type_alias', 'enum', 'virtual_enum', 'namespace',
+                             'function'})
+
 
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
@@ -566,6 +570,7 @@ class ts2pythonCompiler(Compiler):
         self.keep_comments = get_config_value('ts2python.KeepMultilineComments', False)
 
         self.overloaded_type_names: Set[str] = set()
+        self.declared_names: Set[str] = set()
         self.known_types: List[Dict[str]] = [
             {'Union': 'Union', 'List': 'List', 'Tuple': 'Tuple', 'Optional': 'Optional',
              'Dict': 'Dict', 'Set': 'Set', 'Any': 'Any', 'Generic': 'Generic',
@@ -614,6 +619,8 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        self.declared_names = {nd['identifier'].content for nd in root.select_if(
+            lambda nd: nd.name in DECLARING_NODES and 'identifier' in nd)}
         # drop comments in the midst of a construct, e.g. between the alternatives of a union
         for nd in root.select_if(lambda nd: nd.children and nd.name not in COMMENTED_NODES,
                                  include_root=True):
@@ -1033,7 +1040,7 @@ class ts2pythonCompiler(Compiler):
                 obj_name_stub = obj_name_stub[:n]
             k = i
             self.obj_name[-1] = fname + obj_name_stub + '_' + str(k)
-            while self.is_local_class(self.anonymous_name()):
+            while self.is_name_taken(self.anonymous_name()):
                 k += 1
                 self.obj_name[-1] = fname + obj_name_stub + '_' + str(k)
             save = self.func_name
@@ -1083,9 +1090,11 @@ class ts2pythonCompiler(Compiler):
             return '_'.join(self.obj_name[1:] or self.obj_name)
         return self.obj_name[-1]
 
-    def is_local_class(self, name: str) -> bool:
-        """Returns True, if there already is a class of that name among the local classes."""
-        return any(f"\nclass {name}{delimiter}" in '\n' + lc
+    def is_name_taken(self, name: str) -> bool:
+        """Returns True, if there already is a class of that name among the local classes,
+        or if something of that name is declared in the document."""
+        return name in self.declared_names \
+            or any(f"\nclass {name}{delimiter}" in '\n' + lc
                    for lc in self.local_classes[-1] for delimiter in '(:')
 
     def render_declarations(self, decls) -> str:
-- 
2.43.0


From d6658981a2e497df7c4de82fffe7d164a51cf8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 64/66] fix: anonymous interfaces with methods in functional
 rendering

---
 ts2pythonParser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 18b81e1..2c33bb2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1097,12 +1097,12 @@ class ts2pythonCompiler(Compiler):
             or any(f"\nclass {name}{delimiter}" in '\n' + lc
                    for lc in self.local_classes[-1] for delimiter in '(:')
 
-    def render_declarations(self, decls) -> str:
+    def render_declarations(self, decls, is_class: bool) -> str:
         if self.renders_on_toplevel():
             return ''.join([self.render_local_classes(),
                             self.render_class_header(self.anonymous_name(), '') + "    ",
                             decls.replace('\n', '\n    ')])
-        elif self.base_class_name != "TypedDict" or self.render_anonymous in ("local", "toplevel"):
+        elif is_class:
             return ''.join([self.render_class_header(self.anonymous_name(), '') + "    ",
                             self.render_local_classes().replace('\n', '\n    '),
                             decls.replace('\n', '\n    ')])
@@ -1119,10 +1119,11 @@ class ts2pythonCompiler(Compiler):
             self.local_classes.append([])
             self.optional_keys.append([])
             is_class = self.base_class_name != "TypedDict" \
-                or self.render_anonymous in ("local", "toplevel")
+                or self.render_anonymous in ("local", "toplevel") \
+                or any(typ.select('function'))  # methods can only be defined inside of a class
             if is_class:  self.known_types.append(dict())
             decls = self.compile(typ)
-            result = self.render_declarations(decls)
+            result = self.render_declarations(decls, is_class)
             if is_class:  self.known_types.pop()
             self.optional_keys.pop()
             self.local_classes.pop()
-- 
2.43.0


From ec0fd5d55773caf9339fda2fb127be3c62749077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 65/66] fix: methods of anonymous interfaces outside of
 interfaces had no self

---
 ts2pythonParser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 2c33bb2..4db6173 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -847,7 +847,7 @@ class ts2pythonCompiler(Compiler):
         return code
 
     def mark_overloaded_functions(self, scope: Node):
-        is_interface = self.scope_type[-1] in ('interface', 'namespace')
+        is_interface = self.scope_type[-1] in ('interface', 'record', 'namespace')
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
@@ -930,10 +930,10 @@ class ts2pythonCompiler(Compiler):
         else:  tps = ''
         try:
             arguments = self.compile(node['arg_list'])
-            if self.scope_type[-1] == 'interface':
+            if self.scope_type[-1] in ('interface', 'record'):
                 arguments = 'self, ' + arguments
         except KeyError:
-            arguments = 'self' if self.scope_type[-1] == 'interface' else ''
+            arguments = 'self' if self.scope_type[-1] in ('interface', 'record') else ''
         try:
             return_type = self.compile(node['types'])
         except KeyError:
@@ -1122,7 +1122,9 @@ class ts2pythonCompiler(Compiler):
                 or self.render_anonymous in ("local", "toplevel") \
                 or any(typ.select('function'))  # methods can only be defined inside of a class
             if is_class:  self.known_types.append(dict())
+            self.scope_type.append('record')
             decls = self.compile(typ)
+            self.scope_type.pop()
             result = self.render_declarations(decls, is_class)
             if is_class:  self.known_types.pop()
             self.optional_keys.pop()
-- 
2.43.0


From 68a4988d6fe761416a078d7ec14ce51617d40519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 66/66] fix: fields were taken for optional, if their type was
 a quoted union of a union and a type with a nested None

---
 ts2python/typeddict_shim.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index d2857e6..41cd71a 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -133,22 +133,29 @@ def _is_union(origin) -> bool:
     return origin is Union
 
 
-def _union_with_None(type_expression: str) -> bool:
-    """True, if the type expression is a union (Union[X, None] or X | None)
-    and None is one of its alternatives."""
+def _split_type(type_expression: str, separator: str) -> list:
+    """Splits the type expression at those separators that are not nested."""
     depth = 0
     items = ['']
-    is_union = type_expression.startswith('Union[') and type_expression.endswith(']')
-    for ch in type_expression[6:-1] if is_union else type_expression:
+    for ch in type_expression:
         if ch in '[(':  depth += 1
         elif ch in '])':  depth -= 1
-        if depth == 0 and ch == (',' if is_union else '|'):
+        if depth == 0 and ch == separator:
             items.append('')
         else:
             items[-1] += ch
+    return [item.strip() for item in items]
+
+
+def _union_with_None(type_expression: str) -> bool:
+    """True, if the type expression is a union (Union[X, None] or X | None)
+    and None is one of its alternatives."""
+    items = _split_type(type_expression, '|')
+    if len(items) == 1 and type_expression.startswith('Union[') and type_expression.endswith(']'):
+        items = _split_type(type_expression[6:-1], ',')
     return len(items) > 1 and any(
         item == 'None' or item.startswith('Optional[') or _union_with_None(item)
-        for item in (item.strip() for item in items))
+        for item in items)
 
 
 def _caller(depth=1, default='__main__'):
-- 
2.43.0

