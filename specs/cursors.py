"""Stand-ins for libclang objects: the accessors the handlers use, with unknown answers.  Contract of
libclang assumed: accessors are pure and give the same answer every time."""
from clang.cindex import CursorKind, TypeKind
from pyvc.values import VDict, VSet


class File:
    def __str__(self):
        return self.name

    def __init__(self, name):
        self.name = name


class Loc:
    def __init__(self, file, line, column=1):
        self.file, self.line, self.column = file, line, column


def loc(sc, n='loc'):
    return Loc(File(sc.str(n + '.file', 'line')), sc.int(n + '.line', 1))


class Cur:
    """a cursor"""

    def __init__(self, sc, kind, spelling=None, children=(), type=None, **kw):
        self.kind = kind
        self.spelling = sc.str('spelling') if spelling is None else spelling
        self.displayname = self.spelling
        self.location = None
        self.brief_comment = None
        self.type = type
        self.children = children
        self.semantic_parent = self.lexical_parent = TU
        self.anon = False
        self.desc = None
        self.usr = sc.str('usr', 'text')
        self.definition = self      # the cursor of the definition, or None
        for k, v in kw.items():
            setattr(self, k, v)

    def get_children(self):
        return self.children

    def is_anonymous(self):
        return self.anon

    def get_usr(self):
        return self.usr

    def get_definition(self):
        return self.definition

    def is_definition(self):
        return self.definition is self

    def get_arguments(self):
        return self.arguments

    def get_tokens(self):
        return self.tokens


class TUCursor:
    kind = CursorKind.TRANSLATION_UNIT
    spelling = displayname = 'input.c'


TU = TUCursor()


class Typ:
    """a type"""

    def __init__(self, sc, kind, **kw):
        self.kind = kind
        self.spelling = sc.str('tspelling', 'text', nonempty=True)
        self.size, self.align = sc.int('tsize'), sc.int('talign')
        self.decl = self.pointee = self.element = self.result = None
        self.canonical = self
        self.count = None
        self.args = ()
        self.desc = None
        for k, v in kw.items():
            setattr(self, k, v)

    def get_size(self):
        return self.size

    def get_align(self):
        return self.align

    def get_canonical(self):
        return self.canonical

    def get_pointee(self):
        return self.pointee

    def get_declaration(self):
        return self.decl

    def get_result(self):
        return self.result

    def get_array_size(self):
        return self.count

    def get_array_element_type(self):
        return self.element

    @property
    def element_type(self):
        return self.element

    @property
    def element_count(self):
        return self.count

    def argument_types(self):
        return self.args

    def get_fields(self):
        return self.fields


def parser(v, denote=True):
    """a parser as its constructor leaves it, before any input; types and declarations below the one under
    contract are denoted by their `desc` (induction hypothesis)"""
    cp = v.mod('ctypeslib.codegen.clangparser')
    TK = TypeKind

    class P(cp.Clang_Parser):
        _vc_state = True

        def make_ctypes_convertor(self, flags):
            for k, n, s in ((TK.INT, 'int', 32), (TK.LONG, 'int', 64), (TK.SHORT, 'int', 16), (TK.LONGLONG, 'int', 64)):
                self.ctypes_typename[k] = 'c_%s%d' % (n, s)
            for k, n, s in ((TK.UINT, 'uint', 32), (TK.ULONG, 'uint', 64), (TK.USHORT, 'uint', 16), (TK.ULONGLONG, 'uint', 64)):
                self.ctypes_typename[k] = 'c_%s%d' % (n, s)
    p = P([])
    if denote:
        th, ch = p.typekind_handler, p.cursorkind_handler
        real_type, real_cursor = th.parse_cursor_type, ch.parse_cursor

        def ptype(t):
            return t.desc if t.desc is not None else real_type(t)

        def pcur(c):
            return c.desc if c.desc is not None else real_cursor(c)
        th.parse_cursor_type, ch.parse_cursor = ptype, pcur
    return p


def handler(p):
    return p.cursorkind_handler


def types(p):
    return p.typekind_handler
