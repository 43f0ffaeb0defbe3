"""C02, C01: the text of a record."""
from pyvc.spec import contract, And, Or
from pyvc.rope import SymStr, Atom, cat, to_text
from pyvc.core import ctx
from specs.common import generator, N, A, chatty, placed
from specs.types import tdesc, known_types, E
from specs.cursors import Cur, Typ, parser
from specs.c05 import below, maybe_registered, PARTS
from clang.cindex import CursorKind as CK, TypeKind as TK

PRIVATE = (r'\b__\w+', r"globals()['\g<0>']")


def module_names(v):
    """contract of re.sub for the one pattern the code uses: the expression with every private name looked up in the
    module (the names of a class body are mangled); any other use is outside the contract"""
    if not v.symbolic:
        return

    def sub(pat, rep, s):
        from pyvc.core import Unsupported
        if (pat, rep) != PRIVATE or len(s.p) != 1 or not isinstance(s.p[0], Atom):
            raise Unsupported('re.sub(%r, %r) on a symbolic string' % (pat, rep))
        a = s.p[0]
        return SymStr((Atom('unmangled(%s)' % a.name, 'expr', charset=a.charset),))
    ctx().re_sub = sub


def unmangled(v, t):
    if not v.symbolic:
        return N(t.expr)
    return N(SymStr((Atom('unmangled(%s)' % t.expr.p[0].name, 'expr', charset=t.expr.p[0].charset),)))


FK = ('fundamental', 'record', 'typedef', 'pointer', 'array')


def field(v, td, sc, anonymous=False):
    t = tdesc(td, sc.sub('t'), kinds=FK) if not anonymous else tdesc(td, sc.sub('t'), kinds=('record', 'union'))
    bitfield = sc.choice('bitfield', [False, True]) if not anonymous else False
    f = td.Field('' if anonymous else sc.str('fname'), t, sc.int('offset'), sc.int('bits', 0), is_bitfield=bitfield,
                 is_anonymous=True if anonymous else sc.bool('anonymous'), is_padding=sc.bool('padding'))
    f.location = placed(sc)
    return f


def entry(v, f, name=None):
    return ('tuple', [f.name if name is None else name, unmangled(v, f.type)] + ([f.bits] if f.is_bitfield else []))


def record(v, td, members):
    un = v.choice('record', ['struct', 'union'])
    cls = td.Structure if un == 'struct' else td.Union
    return cls(v.str('name'), v.int('align', 0), members, [], v.int('size', 0), packed=v.choice('packed', [False, True]))


@contract('C02.body', 'codegenerator.Generator.StructureBody', ['C02', 'C01', 'C11', 'C13'])
def body(v, chat=False):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    module_names(v)
    fields = v.seq('fields', lambda sc: field(v, td, sc), nonempty=True)
    s = record(v, td, fields)
    if chat:
        chatty(v, g, s)
    g._generate(s.get_body(), False)
    n = N(s.name)
    v.expect_program(v.program(g), [('=', A(n, '_pack_'), 1),
                                    ('=', A(n, '_fields_'), ('list', [v.each(fields, lambda f: [entry(v, f)])]))],
                     'packed, with one entry per member in order, with its name, type and bits')
    g._generate(s.get_body(), False)
    v.equal(len(v.program(g)), 2, 'generated once')


@contract('C19.body', 'codegenerator.Generator.StructureBody (with comments and locations)', ['C19'])
def chatty_body(v):
    body(v, True)


@contract('C02.inline', 'codegenerator.Generator.StructureHead, StructureBody (in one statement)', ['C02', 'C01', 'C11', 'C13'])
def inline(v, chat=False):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    module_names(v)
    fields = v.seq('fields', lambda sc: field(v, td, sc))
    s = record(v, td, fields)
    if chat:
        chatty(v, g, s)
    g._generate(s.get_head(), True)
    g._generate(s.get_body(), True)
    base = N('Structure' if type(s) is td.Structure else 'Union')
    if v.empty(fields):
        want = [('pass',)]
    else:
        want = [('=', N('_pack_'), 1), ('=', N('_fields_'), ('list', [v.each(fields, lambda f: [entry(v, f)])]))]
    v.expect_program(v.program(g), [('class', s.name, [base], want)], 'a class with one entry per member in order')
    v.expect_list(g.names, [s.name], 'exported')


@contract('C19.inline', 'codegenerator.Generator.StructureHead, StructureBody (in one statement, with comments and locations)', ['C19'])
def chatty_inline(v):
    inline(v, True)


@contract('C02.head', 'codegenerator.Generator.StructureHead', ['C02', 'C11', 'C12', 'C13', 'C19'])
def head(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    fields = v.seq('fields', lambda sc: field(v, td, sc))
    s = record(v, td, fields)
    chatty(v, g, s)
    g._generate(s.get_head(), False)
    g._generate(s.get_head(), False)
    base = N('Structure' if type(s) is td.Structure else 'Union')
    v.expect_program(v.program(g), [('class', s.name, [base], [('pass',)])], 'declared once, without members')
    v.expect_list(g.names, [s.name], 'exported once')


@contract('C02.anonymous', 'codegenerator.Generator.StructureBody (unnamed members; two of them, a bound)', ['C02', 'C01'])
def anonymous(v):
    """two unnamed members between any number of others"""
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    module_names(v)
    def named(sc):
        t = tdesc(td, sc.sub('t'), kinds=('record',))
        return td.Field(sc.str('fname'), t, 0, 8, is_anonymous=sc.bool('anonymous'))
    a = v.seq('first', named)
    b = v.seq('second', named)
    x, y = [td.Field('', tdesc(td, v.sub(n), kinds=(k,)), 0, 8, is_anonymous=True) for n, k in (('x', 'record'), ('y', 'union'))]
    s = td.Structure(v.str('name'), 4, a + [x] + b + [y], [], 4)
    g._generate(s.get_body(), False)
    n = N(s.name)
    out = v.program(g)
    each = lambda l: v.each(l, lambda f: [entry(v, f)])
    v.expect_program(out, [('=', A(n, '_pack_'), 1), ('=', A(n, '_anonymous_'), ('tuple', ['_0', '_1'])),
                           ('=', A(n, '_fields_'), ('list', [each(a), entry(v, x, '_0'), each(b), entry(v, y, '_1')]))],
                     'unnamed members are anonymous members under a name of their own')


SIMPLE = tuple(k for k in PARTS if k not in (TK.VOID, TK.FUNCTIONPROTO, TK.FUNCTIONNOPROTO))


@contract('C02.FIELD_DECL', 'cursorhandler.CursorHandler.FIELD_DECL (named members)', ['C02', 'C01', 'C05'])
def field_decl(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    real = below(v, v, td, 'of.', SIMPLE)
    other = maybe_registered(v, p, real)
    t = real
    dk = [real.desc]
    if v.choice('typedef', [False, True]):
        alias = td.Typedef(v.str('alias'), real.desc)
        if other is not None:
            v.assume(alias.name != other)
        t = Typ(v.sub('named'), TK.TYPEDEF, size=real.size, canonical=real)
        t.decl = Cur(v.sub('tdecl'), CK.TYPEDEF_DECL, spelling=alias.name, desc=alias, type=t)
        if v.choice('typedef met', [False, True]):
            p.all[alias.name] = alias
            p.all_set.add((alias.name, alias))
        dk.append(alias)
    if real.decl is None:
        real.decl = Cur(v.sub('no'), CK.NO_DECL_FOUND, spelling='')
    name = v.str('field')
    offset = v.int('offset', 0)
    width = v.int('width', 0)
    bitfield = v.choice('bitfield', [False, True])
    rec = Typ(v.sub('rec'), TK.RECORD)
    rec.get_offset = lambda n: offset if n == name else -5
    parent = Cur(v.sub('parent'), v.choice('parent', [CK.STRUCT_DECL, CK.UNION_DECL]), type=rec)
    c = Cur(v, CK.FIELD_DECL, spelling=name, type=t, semantic_parent=parent, lexical_parent=parent,
            children=v.list(Cur(v.sub('ref'), CK.TYPE_REF, spelling=v.str('ref'))) if v.choice('children', [False, True]) else v.list())
    c.is_bitfield = lambda: bitfield
    c.get_bitfield_width = lambda: width
    c.get_field_offsetof = lambda: offset
    f = p.parse_cursor(c)
    v.prove(type(f) is td.Field, 'a member')
    v.equal(f.name, name, 'of its name')
    v.equal(f.offset, offset, 'at its offset')
    v.equal(f.bits, width if bitfield else real.size * 8 if real.size >= 0 else 0, 'of its size')
    v.prove(f.is_bitfield is bitfield, 'a bit-field or not')
    v.prove(not f.is_anonymous and not f.is_padding, 'a named member')
    v.prove(any(f.type is d for d in dk), 'of its type')


@contract('C02.unnamed_record_name', 'clangparser.Clang_Parser.unnamed_record_name', ['C02', 'C11', 'C12'])
def unnamed_record_name(v):
    """in an arbitrary round of its loop: it ends with a name no other record has"""
    p = parser(v)
    kinds = ('STRUCT_DECL', 'UNION_DECL', 'CLASS_DECL', 'FIELD_DECL', 'TYPEDEF_DECL')

    def decl(sc):
        k = sc.choice('kind', kinds)
        return Cur(sc, getattr(CK, k), sc.str('tag'), k=k)
    all_ = v.seq('cursors', decl)

    class Root:
        @staticmethod
        def walk_preorder():
            return all_

    class Unit:
        cursor = Root
    p._unnamed_records.update(v.seq('earlier', lambda sc: ('struct_' + sc.str('made up'), sc.str('its usr')), distinct=('made up',)))
    old = v.list()
    old.extend(p._unnamed_records.items())
    rest = v.str('name')
    name = v.choice('keyword', ['struct_', 'union_']) + rest
    c = Cur(v.sub('record'), CK.STRUCT_DECL, '')
    c.translation_unit = Unit
    v.rounds(name, cut=True)
    r = p.unnamed_record_name(name, c)
    if v.symbolic:
        v.equal(r, name, 'the name of the last round')
        v.prove(not v.some(all_, lambda d: And(d.k in kinds[:3], d.spelling == rest)), 'no record has this tag')
    v.prove(p._unnamed_records[r] == c.usr, 'the name is of this record')
    if not v.empty(old):
        e = v.elem(old)
        v.prove(p._unnamed_records[e[0]] == e[1], 'the names made up before stay')


@contract('C02.get_unique_name', 'handler.ClangHandler.get_unique_name, _make_unknown_name', ['C02', 'C11', 'C12'])
def get_unique_name(v):
    """unnamed_record_name by its contract"""
    p = parser(v)
    h = p.cursorkind_handler
    kinds = ('STRUCT_DECL', 'UNION_DECL', 'ENUM_DECL', 'TYPEDEF_DECL', 'FUNCTION_DECL', 'VAR_DECL', 'FIELD_DECL', 'PARM_DECL')
    k = v.choice('kind', kinds)
    word = {'STRUCT_DECL': 'struct_', 'UNION_DECL': 'union_'}.get(k, '')
    asked = []

    def final(name, cursor):
        asked.append((name, cursor))
        return 'final'
    p.unnamed_record_name = final
    if v.choice('named', [True, False]):
        c = Cur(v.sub('decl'), getattr(CK, k), v.str('name'))
        v.equal(h.get_unique_name(c), word + c.spelling, 'the name of a declaration is its identifier, with the keyword of a record')
        v.prove(not asked, 'whatever other names there are')
        return
    if not word:
        return
    # an unnamed record among the members of another
    def sibling(sc):
        q = sc.choice('sibling kind', kinds[:2] + ('FIELD_DECL',))
        return Cur(sc, getattr(CK, q), '')
    parent = Cur(v.sub('parent'), v.choice('parent kind', [CK.STRUCT_DECL, CK.UNION_DECL]), v.str('outer'))
    c = Cur(v.sub('decl'), getattr(CK, k), v.choice('spelling', ['', 'struct (unnamed struct at in.h:1:1)']), anon=True)
    c.semantic_parent = c.lexical_parent = parent
    c.type = Typ(v.sub('type'), TK.RECORD)
    c.type.decl = c
    parent.children = v.seq('before', sibling) + [c] + v.seq('after', sibling, bound=1)
    field = v.choice('of a member', [True, False]) and v.str('member')
    r = h.get_unique_name(c, field) if field else h.get_unique_name(c)
    v.equal(r, 'final', 'the name of an unnamed record is one no other record has')
    v.prove(len(asked) == 1 and asked[0][1] is c, 'found for this record')
    if asked:
        if field:
            v.equal(asked[0][0], word + parent.spelling + '_' + field, 'made of the names of its parent and its member')
        else:
            v.prove(asked[0][0].startswith(word + parent.spelling + '_'), 'made of the name of its parent')


@contract('C02.unnamed_bitfield', 'cursorhandler.CursorHandler.FIELD_DECL (bit-fields without a name)', ['C02', 'C12'])
def unnamed_bitfield(v):
    """a bit-field without a name between any number of other members: its name is its place, which no other member has"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    t = Typ(v.sub('t'), v.choice('type', [TK.INT, TK.UINT, TK.LONG]))
    t.decl = Cur(v.sub('no'), CK.NO_DECL_FOUND, spelling='')
    offset = v.int('offset', 0)
    width = v.int('width', 0)
    rec = Typ(v.sub('rec'), TK.RECORD)
    rec.get_offset = lambda n: -5
    parent = Cur(v.sub('parent'), CK.STRUCT_DECL, type=rec)
    c = Cur(v, CK.FIELD_DECL, spelling='', type=t, semantic_parent=parent, lexical_parent=parent, children=v.list())
    before = v.seq('before', lambda sc: Cur(sc, CK.FIELD_DECL))
    after = v.seq('after', lambda sc: Cur(sc.sub('a'), CK.FIELD_DECL))
    fields = v.list()
    fields.extend(before)
    fields.append(c)
    fields.extend(after)
    rec.get_fields = lambda: fields
    c.is_bitfield = lambda: True
    c.get_bitfield_width = lambda: width
    c.get_field_offsetof = lambda: offset
    f = p.parse_cursor(c)
    v.prove(type(f) is td.Field, 'a member')
    n = before.sym_len() if hasattr(before, 'sym_len') else len(before)
    v.equal(f.name, cat(['_', to_text(n)]), 'named after its place')
    v.equal(f.offset, offset, 'at its offset')
    v.equal(f.bits, width, 'of its size')
    v.prove(f.is_bitfield is True and not f.is_anonymous and not f.is_padding, 'a bit-field')
