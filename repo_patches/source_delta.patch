From cb0e756bbfc35b5cde0c7aa0d4dcc124ddc9aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 01/43] fix: give unions their C size when no member fills them

---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..afe2c9d 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -895,6 +895,12 @@ class CursorHandler(ClangHandler):
             members.append(member)
             offset = member.offset + member.bits
             prev_member = member
+        if isinstance(s, typedesc.Union):
+            # all the members start at offset 0: the padding too, and it has to fill the union
+            offset = 0
+            if max([m.bits for m in members], default=0) == s.size * 8:
+                s.members = members
+                return
         # tail padding if necessary
         if s.size * 8 != offset:
             length = s.size * 8 - offset
-- 
2.43.0


From 1698f2aeb0e5d46aa1f775f52d68f01440b0222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 02/43] fix: do not share the target type table between parsers

---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..759ed68 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -78,6 +78,8 @@ class Clang_Parser:
         self.tu_options = None
         self.flags = flags
         self.ctypes_sizes = {}
+        # the conversion table depends on the target: do not share it between parsers
+        self.ctypes_typename = dict(self.ctypes_typename)
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
         self.cursorkind_handler = cursorhandler.CursorHandler(self)
-- 
2.43.0


From 4000d192ea7d4df933d383f8bd7ae57980488129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 03/43] fix: do not share mutable defaults between
 CodegenConfig instances

---
 ctypeslib/codegen/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 0f8c6ca..f739d3d 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -40,6 +40,12 @@ class CodegenConfig:
 
     def __init__(self):
         self._init_types()
+        # no mutable default is shared between configurations
+        self.symbols = []
+        self.expressions = []
+        self.preloaded_dlls = []
+        self.known_symbols = {}
+        self.searched_dlls = []
         self.clang_opts = []
         if sys.platform == 'darwin':
             try:
-- 
2.43.0


From 51a4b04dd97fb5d8a054918c8c312ff6397dadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/43] fix: parse_string uses the flags and options of its
 parser

---
 ctypeslib/codegen/clangparser.py | 4 +++-
 ctypeslib/codegen/util.py        | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 759ed68..4f28093 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -134,7 +134,9 @@ class Clang_Parser:
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
-        translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
+        if flags is None:
+            flags = self.flags
+        translation_unit = util.get_tu(input_data, lang, all_warnings, flags, options=self.tu_options)
         self._parse_tu_diagnostics(translation_unit, "memory_input.c")
         self.tu = translation_unit
         root = self.tu.cursor
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f73248..163fa84 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -14,7 +14,7 @@ from ctypeslib.codegen import typedesc
 log = logging.getLogger('utils')
 
 
-def get_tu(source, lang='c', all_warnings=False, flags=None):
+def get_tu(source, lang='c', all_warnings=False, flags=None, options=0):
     """Obtain a translation unit from source and language.
 
     By default, the translation unit is created from source file "t.<ext>"
@@ -38,7 +38,7 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     if all_warnings:
         args += ['-Wall', '-Wextra']
 
-    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
+    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)], options=options)
 
 
 def get_cursor(source, spelling):
-- 
2.43.0


From 8e96cf1536cba9befca3b48bd102f92a0fa148c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/43] fix: octal, binary, long double and hexadecimal float
 initialisers

---
 ctypeslib/codegen/cursorhandler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index afe2c9d..f22eeb3 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -518,14 +518,21 @@ class CursorHandler(ClangHandler):
                 # strip type suffix for constants
                 value = value.replace('L', '').replace('U', '')
                 value = value.replace('l', '').replace('u', '')
-                if value[:2] == '0x' or value[:2] == '0X':
-                    value = '0x%s' % value[2:]  # "int(%s,16)"%(value)
+                if value[:2] in ('0x', '0X'):
+                    value = int(value, 16)
+                elif value[:2] in ('0b', '0B'):
+                    value = int(value, 2)
+                elif value[:1] == '0':
+                    value = int(value, 8)
                 else:
                     value = int(value)
             elif token.cursor.kind == CursorKind.FLOATING_LITERAL:  # noqa
                 # strip type suffix for constants
-                value = value.replace('f', '').replace('F', '')
-                value = float(value)
+                value = re.sub('[fFlL]$', '', value)
+                if value[:2] in ('0x', '0X'):
+                    value = float.fromhex(value)
+                else:
+                    value = float(value)
             elif (token.cursor.kind == CursorKind.CHARACTER_LITERAL or  # noqa
                           token.cursor.kind == CursorKind.STRING_LITERAL):  # noqa
                 value = self._clean_string_literal(token.cursor, value)
-- 
2.43.0


From 4b44719ea2ceb2152ae65f0329d03d3eb3673138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 06/43] fix: octal, suffixed and prefixed literals in macros

---
 ctypeslib/codegen/cursorhandler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index f22eeb3..13fa68e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -435,12 +435,20 @@ class CursorHandler(ClangHandler):
         elif cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
             c = value[-1]
             if c in ['"', "'"]:
-                value = re.sub('''^L%s''' % c , c, value)
+                value = re.sub('''^(L|u8|u|U)%s''' % c , c, value)
+            elif re.match('0[xX][^pP]*[pP]', value):
+                # hexadecimal floating literal
+                value = repr(float.fromhex(re.sub("[fFlL]$", "", value)))
             else:
                 # unsigned int / long int / unsigned long int / long long int / unsigned long long int
                 # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
-                # FIXME combinaisons of u/U, l/L, ll/LL, and combined, plus z/Z combined with u/U
-                value = re.sub("(u|U|l|L|ul|UL|ll|LL|ull|ULL|z|Z|zu|ZU)$", "", value)
+                # u/U and l/L, ll/LL, z/Z come in any order
+                value = re.sub("([uU](l|L|ll|LL|z|Z)?|(l|L|ll|LL|z|Z)[uU]?)$", "", value)
+                if not re.match('0[xX]', value):
+                    # float suffix
+                    value = re.sub("(?<=[0-9.])[fF]$", "", value)
+                # octal literal
+                value = re.sub("^0(?=[0-7]+$)", "0o", value)
             return value
         else:
             pass
-- 
2.43.0


From 4713ba03fc714d60306cf2d69a3f6cd5ff5da91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 07/43] fix: function-like macros without free identifiers are
 not values

---
 ctypeslib/codegen/cursorhandler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 13fa68e..cc418e8 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1109,6 +1109,13 @@ class CursorHandler(ClangHandler):
     #############################
     # PREPROCESSING
 
+    @staticmethod
+    def _is_function_like_macro(cursor):
+        """A function-like macro has its '(' right after its name."""
+        tokens = list(cursor.get_tokens())
+        return (len(tokens) > 1 and tokens[1].spelling == '(' and
+                tokens[0].extent.end.offset == tokens[1].extent.start.offset)
+
     @log_entity
     def MACRO_DEFINITION(self, cursor):
         """
@@ -1150,7 +1157,8 @@ class CursorHandler(ClangHandler):
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
                 # valid tokens for us are are '()[0-9],.e' and terminating LluU
-                if any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
+                if (self._is_function_like_macro(cursor) or
+                        any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens))):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
-- 
2.43.0


From 0901bfba955ad5d3016ffa96143cbfacef9a6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/43] fix: keep nested parentheses of macro values, do not
 export commented out macros

---
 ctypeslib/codegen/codegenerator.py |  4 ++--
 ctypeslib/codegen/cursorhandler.py | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..76c9a43 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -231,8 +231,8 @@ class Generator:
                     print("# %s = %s # macro" % (macro.name, body), file=self.stream)
                 else:
                     print("%s = %s # macro" % (macro.name, body), file=self.stream)
-                self.macros += 1
-                self.names.append(macro.name)
+                    self.macros += 1
+                    self.names.append(macro.name)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index cc418e8..5dccd89 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1116,6 +1116,19 @@ class CursorHandler(ClangHandler):
         return (len(tokens) > 1 and tokens[1].spelling == '(' and
                 tokens[0].extent.end.offset == tokens[1].extent.start.offset)
 
+    @staticmethod
+    def _is_one_group(tokens):
+        """True when the first parenthesis is closed by the last token."""
+        depth = 0
+        for i, token in enumerate(tokens):
+            if token == '(':
+                depth += 1
+            elif token == ')':
+                depth -= 1
+            if depth == 0:
+                return i == len(tokens) - 1
+        return True
+
     @log_entity
     def MACRO_DEFINITION(self, cursor):
         """
@@ -1164,8 +1177,11 @@ class CursorHandler(ClangHandler):
                     args = ''.join(str_tokens).replace(',', ', ')
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
+                elif self._is_one_group(tokens[1:]):
+                    value = ''.join((str(_) for _ in tokens[1:]))
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:tokens.index(')') + 1]))
+                    # #define key (a) b (c)
+                    value = list(tokens[1:])
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
-- 
2.43.0


From 3f8ddf7d3cb85896c9c2185031389d5c98882500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 09/43] fix: generate the dependencies of base classes in a
 stable order

---
 ctypeslib/codegen/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 76c9a43..c3a555c 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -551,7 +551,7 @@ class Generator:
             return
         self.enable_structure_type()
         self._structures += 1
-        depends = set()
+        depends = collections.OrderedDict()
         # We only print a empty struct.
         if struct.members is None:
             log.info("No members for: %s", struct.name)
@@ -564,8 +564,8 @@ class Generator:
             del self.done[struct]
         # checks members dependencies in bases
         for b in struct.bases:
-            depends.update([self.get_undeclared_type(m.type) for m in b.members])
-        depends.discard(None)
+            depends.update([(self.get_undeclared_type(m.type), True) for m in b.members])
+        depends.pop(None, None)
         if len(depends) > 0:
             log.debug("Generate %s DEPENDS for Bases %s", struct.name, depends)
             for dep in depends:
-- 
2.43.0


From 96bc107d470f0f4a0b03d6d06ada2ba1ab36fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/43] fix: bind() on structures with bit-fields

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..5043c01 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -66,7 +66,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def bind(cls, bound_fields):
         fields = {}
-        for name, type_ in cls._fields_:
+        for name, type_, *_ in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
-- 
2.43.0


From 4c4f5f26f9aa814a2534f063c36c818284006161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 11/43] fix: positional construction skips padding entries only

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 5043c01..476eec2 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -52,7 +52,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def _field_names_(cls):
         if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
+            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING_'))
         else:
             return ()
 
-- 
2.43.0


From 994ca8a01237493f2bfb3fe7ba14e80e5466e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/43] fix: emulated pointers have the size of the target's
 pointers

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index c3a555c..d867a80 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -75,9 +75,9 @@ class Generator:
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
-        # assuming a LONG also has the same sizeof than a pointer.
+        # an unsigned integer with the same sizeof than a pointer.
         word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
-        word_type = self.parser.get_ctypes_name(TypeKind.ULONG)
+        word_type = "c_uint%d" % (word_size * 8)
         # pylint: disable=protected-access
         word_char = getattr(ctypes, word_type)._type_
         # replacing template values
-- 
2.43.0


From ae2132ce70f7da8942f640cff64e3e7ad2d9160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/43] fix: name unnamed enums declared inside records

---
 ctypeslib/codegen/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..12936a7 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -144,8 +144,8 @@ class ClangHandler(object):
             name = ''
         if name == '':
             # if cursor.is_anonymous():
-            # a unnamed object at the root TU
-            if (cursor.semantic_parent
+            # a unnamed object at the root TU, or an unnamed enum anywhere
+            if (cursor.kind == CursorKind.ENUM_DECL or cursor.semantic_parent
                 and cursor.semantic_parent.kind == CursorKind.TRANSLATION_UNIT):
                 name = self.make_python_name(cursor.get_usr())
                 log.debug('get_unique_name: root unnamed type kind %s',cursor.kind)
-- 
2.43.0


From 5b5a2c444ebb5e4d7cb84e66873da6dd5b440ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 14/43] fix: variables of enum, union, int pointer and array of
 record types

---
 ctypeslib/codegen/codegenerator.py | 11 +++++++----
 ctypeslib/codegen/cursorhandler.py |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d867a80..dcf79ff 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -358,6 +358,9 @@ class Generator:
             # wtypes.h contains IID_IProcessInitControl, for example
             return
 
+        # the value may refer to the type
+        self._generate(tp.typ)
+
         # Hm.  The variable MAY be a #define'd symbol that we have
         # artifically created, or it may be an exported variable that
         # is not in the libraries that we search.  Anyway, if it has
@@ -380,7 +383,7 @@ class Generator:
                 # FIXME a char * is not a python string.
                 # we should output a cstring() construct.
                 init_value = repr(tp.init)
-            elif isinstance(tp.typ.typ, typedesc.FundamentalType) and (
+            elif isinstance(tp.typ, typedesc.ArrayType) and isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
                 # array of number
@@ -391,16 +394,16 @@ class Generator:
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
-            elif isinstance(tp.typ.typ, typedesc.Structure):
+            elif isinstance(tp.typ.typ, (typedesc.Structure, typedesc.Union)):
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = "(" + self.type_name(tp.typ, False) + ")()"
             else:
                 if tp.init is not None:
                     init_value = tp.init
                 else:
                     init_value = self.type_name(tp.typ, False) + "()"
 
-        elif isinstance(tp.typ, typedesc.Structure):
+        elif isinstance(tp.typ, (typedesc.Structure, typedesc.Union)):
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5dccd89..246bfca 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -277,7 +277,7 @@ class CursorHandler(ClangHandler):
                 self.get_unique_name(cursor))
             log.error(st)
             raise RuntimeError(st)
-        elif self.is_array_type(_ctype) or _ctype.kind == TypeKind.RECORD:  # noqa
+        elif self.is_array_type(_ctype) or _ctype.kind in (TypeKind.RECORD, TypeKind.ENUM):  # noqa
             _type = self.parse_cursor_type(_ctype)
         elif self.is_pointer_type(_ctype):
             # for example, extern Function pointer
@@ -380,7 +380,7 @@ class CursorHandler(ClangHandler):
         # shorcuts.
         if not child.kind.is_expression() and not child.kind.is_declaration():
             raise CursorKindException(child.kind)
-        if child.kind == CursorKind.CALL_EXPR:  # noqa
+        if child.kind in (CursorKind.CALL_EXPR, CursorKind.ENUM_DECL):  # noqa
             raise CursorKindException(child.kind)
         # POD init values handling.
         # As of clang 3.3, int, double literals are exposed.
-- 
2.43.0


From a535eb4be289265539e3f4c3e6633eca9f0bd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 15/43] fix: double on targets where it has the size of float

---
 ctypeslib/codegen/clangparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 4f28093..87455e9 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -291,10 +291,13 @@ typedef void* pointer_t;""",
         # 2015-01 reverse until better solution is found
         # the idea is that you cannot assume a c_double will be same format as a c_long_double.
         # at least this pass size TU
+        if size0 == size1:
+            # targets with a 4 bytes double
+            self.ctypes_typename[TypeKind.DOUBLE] = self.ctypes_typename[TypeKind.FLOAT]
         if size1 != size2:
             self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_long_double_t"
         else:
-            self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_double"
+            self.ctypes_typename[TypeKind.LONGDOUBLE] = self.ctypes_typename[TypeKind.DOUBLE]
 
         self.ctypes_sizes[TypeKind.FLOAT] = size0
         self.ctypes_sizes[TypeKind.DOUBLE] = size1
-- 
2.43.0


From f4295e92e9e29b79091fbe3fdd9b69b9d37d7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 16/43] fix: negated long long and long double initialisers

---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 246bfca..078ca0a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -603,7 +603,7 @@ class CursorHandler(ClangHandler):
         retval = ''.join([str(val) for val in values])
         log.debug('cursor.type.kind:%s', cursor.type.kind.name)
         if cursor.kind == CursorKind.UNARY_OPERATOR:  # noqa
-            if cursor.type.kind in [TypeKind.INT, TypeKind.LONG]:  # noqa
+            if cursor.type.kind in [TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG]:  # noqa
                 if '0x' in retval:
                     retval = int(retval, 16)
                 else:
@@ -612,7 +612,7 @@ class CursorHandler(ClangHandler):
                     except ValueError:
                         # fall back on pass through
                         pass
-            elif cursor.type.kind in [TypeKind.FLOAT, TypeKind.DOUBLE]:  # noqa
+            elif cursor.type.kind in [TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE]:  # noqa
                 retval = float(retval)
         # Things we do not want to do:
         # elif cursor.kind == CursorKind.BINARY_OPERATOR:
-- 
2.43.0


From 505c719781edf203713ee9e8a91605f530cf2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 17/43] fix: string macros containing parentheses

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index dcf79ff..ceffbd5 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -226,7 +226,7 @@ class Generator:
                     body = float_value
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
-                if sum(x=='(' for x in body) != sum(x==')' for x in body):
+                if not util.token_is_string(body) and sum(x=='(' for x in body) != sum(x==')' for x in body):
                     # unbalanced parens means comment
                     print("# %s = %s # macro" % (macro.name, body), file=self.stream)
                 else:
-- 
2.43.0


From 78e6a92801fec4b262a87b2d9df859cf8380e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 18/43] fix: macros naming a function-like macro or a
 declaration

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 078ca0a..31d909b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -559,7 +559,8 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.is_registered(value):
+                    if (self.is_registered(value) and isinstance(self.get_registered(value), typedesc.Macro) and
+                            not self.get_registered(value).args):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
                         value = self.get_registered(value).body
-- 
2.43.0


From 84718fe6691affcab373bdf3e764213a708fb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 19/43] fix: records declared before their definition were
 dropped

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 31d909b..37dc2e1 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -711,6 +711,9 @@ class CursorHandler(ClangHandler):
                 declared_instance = True
         else:
             obj = self.get_registered(name)
+            # a forward declaration has saved the spot without a location
+            self.set_location(obj, cursor)
+            self.set_comment(obj, cursor)
             declared_instance = False
         # capture members declaration
         members = []
-- 
2.43.0


From 541be08d96fe325d47661a678536d33f6cff10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 20/43] fix: preloaded libraries are loaded by name in the
 generated code

---
 ctypeslib/codegen/codegenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index ceffbd5..5488bbe 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1025,12 +1025,13 @@ class CodeTranslator:
         self.cfg = cfg
         self.parser = None
         self.generator = None
+        self.preloaded_libraries = []
         self.items = []
         self.filtered_items = []
 
     def preload_dlls(self):
-        # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        # open the libraries, the generated code loads them by name
+        self.preloaded_libraries = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From 41a118288edba8bead0d58f8cc24186879668112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 21/43] fix: bind functions to libraries given by their linker
 name

---
 ctypeslib/codegen/codegenerator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 5488bbe..2239323 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -788,11 +788,13 @@ class Generator:
             print("# You can either re-run clan2py with -l /path/to/library.so",file=self.imports)
             print("# Or manually fix this by comment the ctypes.CDLL loading", file=self.imports)
 
+        # a library found by the linker name is a ctypes.CDLL
+        filepath = getattr(library, "_filepath", library._name)
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
             if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, library._filepath)
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, filepath)
                 print(_, file=self.imports)
                 self._stdcall_libraries[library._name] = None
             return "_stdcall_libraries[%r]" % library._name
@@ -804,7 +806,7 @@ class Generator:
         else:
             global_flag = ""
         if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
                   file=self.imports)
             self._c_libraries[library._name] = None
         return "_libraries[%r]" % library._name
-- 
2.43.0


From 4b3e010a5d076c6fb18d65efa7d3783b83c98012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 22/43] fix: libraries with the same file name in different
 directories

---
 ctypeslib/codegen/codegenerator.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 2239323..4429c46 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -793,11 +793,12 @@ class Generator:
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
-            if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, filepath)
+            name = self._library_key(self._stdcall_libraries, library._name, filepath)
+            if name not in self._stdcall_libraries:
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (name, stub_comment, filepath)
                 print(_, file=self.imports)
-                self._stdcall_libraries[library._name] = None
-            return "_stdcall_libraries[%r]" % library._name
+                self._stdcall_libraries[name] = filepath
+            return "_stdcall_libraries[%r]" % name
 
         # generate clinux call
         self.need_CLibraries()
@@ -805,11 +806,19 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
+        name = self._library_key(self._c_libraries, library._name, filepath)
+        if name not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (name, stub_comment, filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[name] = filepath
+        return "_libraries[%r]" % name
+
+    @staticmethod
+    def _library_key(libraries, name, filepath):
+        """The name of the library, or its path when another library has that name."""
+        if libraries.get(name, filepath) != filepath:
+            return filepath
+        return name
 
     _STRING_defined = False
 
-- 
2.43.0


From 7288eb838db99b3772ecd2a2aee542e340fcbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 23/43] fix: as_dict of a structure with a null pointer

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 476eec2..b737b73 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -22,7 +22,7 @@ class AsDictMixin:
                     value = [type_.as_dict(v) for v in value]
                 else:
                     value = [i for i in value]
-            elif hasattr(value, "contents") and hasattr(value, "_type_"):
+            elif hasattr(type_, "contents") and hasattr(value, "_type_"):
                 # pointer
                 try:
                     if not hasattr(type_, "as_dict"):
-- 
2.43.0


From 2e87694954412bd2606cd5584e10c3086094c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 24/43] fix: a library given without directory had the key of
 another one

---
 ctypeslib/codegen/codegenerator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 4429c46..e709398 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -816,9 +816,14 @@ class Generator:
     @staticmethod
     def _library_key(libraries, name, filepath):
         """The name of the library, or its path when another library has that name."""
-        if libraries.get(name, filepath) != filepath:
-            return filepath
-        return name
+        for key, path in libraries.items():
+            if path == filepath:
+                return key
+        key = name if name not in libraries else filepath
+        while key in libraries:
+            # a library without a directory, and another one has its name
+            key += "_"
+        return key
 
     _STRING_defined = False
 
-- 
2.43.0


From 6e446ab6c0c7c8debc795cfc5be179d2825f3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 25/43] fix: wrap every private name in the type of a field,
 not only a leading one

---
 ctypeslib/codegen/codegenerator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e709398..5210503 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -10,6 +10,7 @@ import collections
 import ctypes
 import logging
 import os
+import re
 import pkgutil
 import sys
 import textwrap
@@ -718,9 +719,8 @@ class Generator:
             for f in fields:
                 fieldname = unnamed_fields.get(f, f.name)
                 type_name = self.type_name(f.type)
-                # handle "__" prefixed names by using a wrapper
-                if type_name.startswith("__"):
-                    type_name = "globals()['%s']" % type_name
+                # handle "__" prefixed names, anywhere in the type, by using a wrapper
+                type_name = re.sub(r"\b__\w+", r"globals()['\g<0>']", type_name)
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
                     print("    ('%s', %s)," % (fieldname, type_name), file=self.stream)
@@ -730,7 +730,7 @@ class Generator:
                     # print fieldname
                     # import code
                     # code.interact(local=locals())
-                    print("    ('%s', %s, %s)," % (fieldname, self.type_name(f.type), f.bits), file=self.stream)
+                    print("    ('%s', %s, %s)," % (fieldname, type_name, f.bits), file=self.stream)
             if inline:
                 print(prefix, end=" ", file=self.stream)
             print("]\n", file=self.stream)
-- 
2.43.0


From 01a8f0f72128b8b318113c9b546e7ab1b655cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 26/43] fix: a repeated declaration of an incomplete record is
 the same record

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 37dc2e1..1ff85ac 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -669,6 +669,9 @@ class CursorHandler(ClangHandler):
         if size == -2: #
             # CXTypeLayoutError_Incomplete = -2
             # produce an empty structure declaration
+            if self.is_registered(name):
+                # a repeated declaration is the same record
+                return self.get_registered(name)
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
             obj = _output_type(name, align, None, bases, size, packed=False)
-- 
2.43.0


From 75013665d941b7710c94e0574d481943c435304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:11 +0000
Subject: [PATCH 27/43] fix: a record that was incomplete in an earlier file
 has the size of its definition

---
 ctypeslib/codegen/cursorhandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 1ff85ac..f12b8e9 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -714,7 +714,9 @@ class CursorHandler(ClangHandler):
                 declared_instance = True
         else:
             obj = self.get_registered(name)
-            # a forward declaration has saved the spot without a location
+            # a forward declaration has saved the spot without a location,
+            # and without a size when the record was incomplete in that file
+            obj.size, obj.align = size, align
             self.set_location(obj, cursor)
             self.set_comment(obj, cursor)
             declared_instance = False
-- 
2.43.0


From 9684a5c4fb147c647b81ec09bc979c2bf1005f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:34 +0000
Subject: [PATCH 28/43] fix: an unnamed record is not taken for another record
 of the same made up name

---
 ctypeslib/codegen/clangparser.py | 18 +++++++++++++++++-
 ctypeslib/codegen/handler.py     |  5 +++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 87455e9..db7a4d2 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -4,7 +4,7 @@ import logging
 import os
 import collections
 
-from clang.cindex import Index, TranslationUnit
+from clang.cindex import CursorKind, Index, TranslationUnit
 from clang.cindex import TypeKind
 
 from ctypeslib.codegen import cursorhandler
@@ -40,6 +40,8 @@ class Clang_Parser:
     }
 
     # FIXME, macro definition __SIZEOF_DOUBLE__
+    record_kinds = (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.CLASS_DECL)
+
     ctypes_typename = {
         TypeKind.VOID: "None",  # because ctypes.POINTER(None) == c_void_p
         TypeKind.BOOL: "c_bool",
@@ -80,6 +82,10 @@ class Clang_Parser:
         self.ctypes_sizes = {}
         # the conversion table depends on the target: do not share it between parsers
         self.ctypes_typename = dict(self.ctypes_typename)
+        # the records in the translation unit, and the ones without a tag, by the name made up for them
+        self._tags_tu = None
+        self._tags = set()
+        self._unnamed_records = {}
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
         self.cursorkind_handler = cursorhandler.CursorHandler(self)
@@ -240,6 +246,16 @@ class Clang_Parser:
         self.all_set.remove((name, self.all[name]))
         del self.all[name]
 
+    def unnamed_record_name(self, name, cursor):
+        """The name made up for an unnamed record, unless another record has it"""
+        if cursor.translation_unit is not self._tags_tu:
+            self._tags_tu = cursor.translation_unit
+            self._tags = {_.spelling for _ in self._tags_tu.cursor.walk_preorder() if _.kind in self.record_kinds}
+        usr = cursor.get_usr()
+        while name.split("_", 1)[1] in self._tags or self._unnamed_records.setdefault(name, usr) != usr:
+            name += "_"
+        return name
+
     def make_ctypes_convertor(self, _flags):
         """
         Fix clang types to ctypes conversion for this parsing instance.
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 12936a7..39edeeb 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -133,6 +133,7 @@ class ClangHandler(object):
             return ''
         # covers most cases
         name = cursor.spelling
+        unnamed = False
         if cursor.kind == CursorKind.CXX_BASE_SPECIFIER:
             name = cursor.type.spelling
         # if it's a record decl or field decl and its type is anonymous
@@ -152,6 +153,7 @@ class ClangHandler(object):
             elif cursor.kind in [CursorKind.STRUCT_DECL,CursorKind.UNION_DECL,
                                  CursorKind.CLASS_DECL,CursorKind.FIELD_DECL]:
                 name = self._make_unknown_name(cursor, field_name)
+                unnamed = True
                 log.debug('Unnamed cursor type, got name %s',name)
             else:
                 log.debug('Unnamed cursor, No idea what to do')
@@ -169,6 +171,9 @@ class ClangHandler(object):
             if 'unnamed at' in name:
                 name = re.sub('[^a-zA-Z0-9]', '_', name)
             name = '%s_%s'%(names[cursor.kind],name)
+            if unnamed:
+                # struct a { struct { int i; } b; }; struct a_b { int j; };
+                name = self.parser.unnamed_record_name(name, cursor)
         log.debug('get_unique_name: name "%s"',name)
         return name
 
-- 
2.43.0


From 4f1bb5a96eea4b61759c25029fc3d73ce8b50839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 29/43] fix: any file name in a docstring

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 5210503..9af0fba 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -898,7 +898,7 @@ class Generator:
                 '    {file}:{line}"""'.format(
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
-                    file=func.location[0],
+                    file=func.location[0].replace("\\", "\\\\").replace('"', '\\"'),
                     line=func.location[1],
                     ret=typeString(func.returns),
                 ),
-- 
2.43.0


From fc9267cd818412d9af99371c669b39989602af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 30/43] fix: the docstring of a function the library lacks

---
 ctypeslib/codegen/codegenerator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 9af0fba..29c8ac2 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -879,9 +879,6 @@ class Generator:
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
         print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
-        print("except AttributeError:", file=self.stream)
-        print("    pass", file=self.stream)
-
         if self.generate_docstrings:
 
             def typeString(typ):
@@ -894,7 +891,7 @@ class Generator:
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
             print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
+                '    {funcname}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
@@ -905,6 +902,9 @@ class Generator:
                 file=self.stream,
             )
 
+        print("except AttributeError:", file=self.stream)
+        print("    pass", file=self.stream)
+
         self.names.append(func.name)
         self._functiontypes += 1
         return
-- 
2.43.0


From 8dbdb41d5f5f8c226f288b6246a99fd27e260c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:02 +0000
Subject: [PATCH 31/43] fix: a negated unknown identifier in a macro

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index f12b8e9..6e08b34 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1174,7 +1174,7 @@ class CursorHandler(ClangHandler):
             if len(tokens) == 2:
                 # #define key value
                 value = tokens[1]
-            elif len(tokens) == 3 and tokens[1] == '-':
+            elif len(tokens) == 3 and tokens[1] == '-' and isinstance(tokens[2], str):
                 value = ''.join(tokens[1:])
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
-- 
2.43.0


From c112ba70bafc143e39c188bf3e290fd460acda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 32/43] fix: a macro naming unknown identifiers through another
 macro, in parentheses

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6e08b34..016b908 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1180,7 +1180,7 @@ class CursorHandler(ClangHandler):
                 # #107, differentiate between function-like macro and expression in ()
                 # valid tokens for us are are '()[0-9],.e' and terminating LluU
                 if (self._is_function_like_macro(cursor) or
-                        any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens))):
+                        util.contains_undefined_identifier(typedesc.Macro(name, None, tokens))):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
-- 
2.43.0


From 801e8de2df11a8c8f4b7d60d959599c29c670f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 33/43] fix: a macro with an unknown identifier and no closing
 parenthesis

---
 ctypeslib/codegen/cursorhandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 016b908..3d6bb8d 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1182,9 +1182,11 @@ class CursorHandler(ClangHandler):
                 if (self._is_function_like_macro(cursor) or
                         util.contains_undefined_identifier(typedesc.Macro(name, None, tokens))):
                     # function macro or an expression.
-                    str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
+                    # there may be no closing parenthesis in an expression
+                    end = tokens.index(')')+1 if ')' in tokens else len(tokens)
+                    str_tokens = [str(_) for _ in tokens[1:end]]
                     args = ''.join(str_tokens).replace(',', ', ')
-                    str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
+                    str_tokens = [str(_) for _ in tokens[end:]]
                     value = ''.join(str_tokens)
                 elif self._is_one_group(tokens[1:]):
                     value = ''.join((str(_) for _ in tokens[1:]))
-- 
2.43.0


From 9389e1278ee97c885ae870d13953b0ef32abc287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:01 +0000
Subject: [PATCH 34/43] fix: an enum declared before its definition gets the
 values of its definition

---
 ctypeslib/codegen/cursorhandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 3d6bb8d..192490f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -149,11 +149,18 @@ class CursorHandler(ClangHandler):
     def ENUM_DECL(self, cursor):  # noqa
         """Gets the enumeration declaration."""
         name = self.get_unique_name(cursor)
+        obj = None
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if not isinstance(obj, typedesc.Enumeration) or obj.values or not cursor.is_definition():
+                return obj
         align = cursor.type.get_align()
         size = cursor.type.get_size()
-        obj = self.register(name, typedesc.Enumeration(name, size, align))
+        if obj is None:
+            obj = self.register(name, typedesc.Enumeration(name, size, align))
+        else:
+            # it was only declared so far, this is the definition
+            obj.size, obj.align = int(size), int(align)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         # parse all children
-- 
2.43.0


From 40deca592421263e0f448d0bf174eeecab461258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:01 +0000
Subject: [PATCH 35/43] fix: a function declared without a prototype gets the
 arguments of a later prototype

---
 ctypeslib/codegen/cursorhandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 192490f..b0c5141 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -174,7 +174,12 @@ class CursorHandler(ClangHandler):
         # FIXME to UT
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if isinstance(obj, typedesc.Function) and not obj.arguments:
+                # the first declaration may have no prototype
+                for arg in cursor.get_arguments():
+                    obj.add_argument(self.parse_cursor(arg))
+            return obj
         returns = self.parse_cursor_type(cursor.type.get_result())
         attributes = []
         extern = False
-- 
2.43.0


From 8028515c773362ba19457a3040f0b841cdf04c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:02 +0000
Subject: [PATCH 36/43] fix: a variable declared before its definition gets the
 value of its definition

---
 ctypeslib/codegen/cursorhandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index b0c5141..26170aa 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -260,7 +260,12 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: name: %s', name)
         # Check for a previous declaration in the register
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if isinstance(obj, typedesc.Variable) and not obj.init and cursor.is_definition():
+                # it was only declared so far, this is the definition
+                obj.typ, obj.extern = self._VAR_DECL_type(cursor)
+                obj.init = self._VAR_DECL_value(cursor, obj.typ)
+            return obj
         # get the typedesc object
         _type, extern = self._VAR_DECL_type(cursor)
         # transform the ctypes values into ctypeslib
-- 
2.43.0


From d308ae214bdf957f1cb4801486d7c7572f0bff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:59 +0000
Subject: [PATCH 37/43] fix: a declaration repeated in a source file stands for
 its definition in an included file

---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 26170aa..21c1012 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -148,6 +148,9 @@ class CursorHandler(ClangHandler):
     @log_entity
     def ENUM_DECL(self, cursor):  # noqa
         """Gets the enumeration declaration."""
+        if not cursor.is_definition():
+            # the definition may be in a file that is not parsed on its own
+            cursor = cursor.get_definition() or cursor
         name = self.get_unique_name(cursor)
         obj = None
         if self.is_registered(name):
@@ -663,6 +666,9 @@ class CursorHandler(ClangHandler):
         Handles record type declaration.
         Structure, Union...
         """
+        if not cursor.is_definition():
+            # the definition may be in a file that is not parsed on its own
+            cursor = cursor.get_definition() or cursor
         name = self.get_unique_name(cursor)
         # FIXME, handling anonymous field by adding a child id.
         if num is not None:
-- 
2.43.0


From f8ecb7b0c5a29bea62a18f1c42810e6e85984ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:34 +0000
Subject: [PATCH 38/43] fix: bit-fields renamed enumerations and had types
 ctypes has no bit-fields of

---
 ctypeslib/codegen/cursorhandler.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 21c1012..7be1cfb 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -782,6 +782,13 @@ class CursorHandler(ClangHandler):
         self._fixup_record(obj)
         return obj
 
+    @staticmethod
+    def _bitfield_unit(typ):
+        """The integer or enumeration type behind the type of a bitfield member"""
+        while isinstance(typ, typedesc.Typedef):
+            typ = typ.typ
+        return typ
+
     def _fixup_record_bitfields_type(self, s):
         """Fix the bitfield packing issue for python ctypes, by changing the
         bitfield type, and respecting compiler alignement rules.
@@ -839,7 +846,14 @@ class CursorHandler(ClangHandler):
         # to the bf_size
         # set the proper type name for the bitfield.
         for bf_size, members in bitfields:
-            name = members[0].type.name
+            unit = self._bitfield_unit(members[0].type)
+            name = unit.name
+            if name == 'c_char':
+                # ctypes has no bitfields of characters
+                name = 'c_int8'
+            elif isinstance(unit, typedesc.Enumeration):
+                name = 'c_uint%d' % (unit.size * 8)
+            unit_size = unit.size
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
@@ -854,11 +868,22 @@ class CursorHandler(ClangHandler):
             else:
                 name = 'c_uint64'
                 pad_bits = bf_size % 64 - bf_size
+            if bf_size > 32 or unit_size > 8:
+                # ctypes has no larger bitfields
+                name = 'c_uint64'
+                unit_size = 8
+            elif bf_size > unit_size * 8:
+                # the type of the first member is too small for the bitfield
+                unit_size = 2 if bf_size <= 16 else 4
+                name = 'c_uint%d' % (unit_size * 8)
             # change the type to harmonise the bitfield
             log.debug('_fixup_record_bitfield_size: fix type to %s', name)
             # set the whole bitfield to the appropriate type size.
             for m in members:
-                m.type.name = name
+                if (isinstance(m.type, typedesc.FundamentalType)
+                        or self._bitfield_unit(m.type).size != unit_size):
+                    # an enumeration of that size keeps its type
+                    m.type = typedesc.FundamentalType(name, unit_size, unit_size)
                 if m.is_padding:
                     # this is the last field.
                     # reduce the size of this padding field to the
-- 
2.43.0


From 0cfc17c5203d38051f67531931e0ec1c9ca3a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:34 +0000
Subject: [PATCH 39/43] fix: records and arrays after a bit-field lost their
 type

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 7be1cfb..bece617 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -901,7 +901,7 @@ class CursorHandler(ClangHandler):
                 if len(s.members) > i + 1:
                     # has to exists, no arch is aligned on 24 bits.
                     next_member = s.members[i + 1]
-                    if next_member.bits == 8:
+                    if next_member.bits == 8 and isinstance(next_member.type, typedesc.FundamentalType):
                         # next_member field is a char.
                         # it will be aggregated in a 32 bits space
                         # we need to make it a member of 32bit bitfield
-- 
2.43.0


From 2896db4f34bf7fba806a5c3e58ac6d0d97c65e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:34 +0000
Subject: [PATCH 40/43] fix: bit-fields of zero bits made modules that do not
 load

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index bece617..b93e031 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -920,6 +920,8 @@ class CursorHandler(ClangHandler):
             log.debug('FIXUP_STRUCT: no members')
             s.members = []
             return
+        # a bitfield of zero bits has no place in the record
+        s.members = [m for m in s.members if not (m.is_bitfield and m.bits == 0)]
         if s.size == 0:
             log.debug('FIXUP_STRUCT: struct has size %d', s.size)
             return
-- 
2.43.0


From 56dd433982653e61d387e6e62f52335874cf1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:34 +0000
Subject: [PATCH 41/43] fix: padding of more than 64 bits after a bit-field
 made modules that do not load

---
 ctypeslib/codegen/cursorhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index b93e031..363182e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1008,6 +1008,11 @@ class CursorHandler(ClangHandler):
         padding_nb += 1
         log.debug("_make_padding: for %d bits", length)
         if (length % 8) != 0 or (prev_member is not None and prev_member.is_bitfield):
+            if length > 64:
+                # too large for a bitfield: up to the next byte, then bytes
+                bits = length % 8 or 8
+                padding_nb = self._make_padding(members, padding_nb - 1, offset, bits, prev_member)
+                return self._make_padding(members, padding_nb, offset + bits, length - bits)
             if length > 32:
                 typename = "c_uint64"
             elif length > 16:
-- 
2.43.0


From 49d27694494b1e4ac8efa8f7a0baf432c089fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:20 +0000
Subject: [PATCH 42/43] fix: bit-fields next to a _Bool one had the type _Bool

---
 ctypeslib/codegen/cursorhandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 363182e..393edb0 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -851,6 +851,9 @@ class CursorHandler(ClangHandler):
             if name == 'c_char':
                 # ctypes has no bitfields of characters
                 name = 'c_int8'
+            elif name == 'c_bool' and any(self._bitfield_unit(m.type).name != name for m in members):
+                # a member of several bits is not a truth value
+                name = 'c_uint8'
             elif isinstance(unit, typedesc.Enumeration):
                 name = 'c_uint%d' % (unit.size * 8)
             unit_size = unit.size
@@ -901,7 +904,8 @@ class CursorHandler(ClangHandler):
                 if len(s.members) > i + 1:
                     # has to exists, no arch is aligned on 24 bits.
                     next_member = s.members[i + 1]
-                    if next_member.bits == 8 and isinstance(next_member.type, typedesc.FundamentalType):
+                    if (next_member.bits == 8 and isinstance(next_member.type, typedesc.FundamentalType)
+                            and m.type.name != 'c_bool'):
                         # next_member field is a char.
                         # it will be aggregated in a 32 bits space
                         # we need to make it a member of 32bit bitfield
-- 
2.43.0


From 87f5fbde176a3cb697a949708cc5d407ac10d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:55 +0000
Subject: [PATCH 43/43] fix: as_dict left the rows of arrays of arrays
 unconverted

---
 ctypeslib/data/structure_type.tpl | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index b737b73..093a6bb 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -17,11 +17,7 @@ class AsDictMixin:
             type_ = type(value)
             if hasattr(value, "_length_") and hasattr(value, "_type_"):
                 # array
-                type_ = type_._type_
-                if hasattr(type_, 'as_dict'):
-                    value = [type_.as_dict(v) for v in value]
-                else:
-                    value = [i for i in value]
+                value = AsDictMixin._array_as_list(value)
             elif hasattr(type_, "contents") and hasattr(value, "_type_"):
                 # pointer
                 try:
@@ -39,6 +35,19 @@ class AsDictMixin:
             result[field] = value
         return result
 
+    @staticmethod
+    def _array_as_list(array):
+        if hasattr(array, "value"):
+            # array of characters
+            return array.value
+        type_ = type(array)._type_
+        if hasattr(type_, 'as_dict'):
+            return [type_.as_dict(v) for v in array]
+        if hasattr(type_, "_length_") and hasattr(type_, "_type_"):
+            # array of arrays
+            return [AsDictMixin._array_as_list(v) for v in array]
+        return [i for i in array]
+
 
 class Structure(ctypes.Structure, AsDictMixin):
 
-- 
2.43.0

