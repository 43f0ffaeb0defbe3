"""C06: enumerations."""
from pyvc.spec import contract
from pyvc import emit
from clang.cindex import CursorKind, TypeKind
from specs.common import generator, N, A, chatty, placed
from specs.cursors import Cur, Typ, parser, loc


@contract('C06.Enumeration', 'codegenerator.Generator.Enumeration, EnumValue', ['C06', 'C12', 'C13', 'C19'])
def enumeration(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    size = v.int('size', 1)
    tp = td.Enumeration(v.str('enum'), size, 8)

    def value(sc):
        e = td.EnumValue(sc.str('name'), sc.int('value'), tp)
        e.location = placed(sc)
        return e
    vals = v.seq('values', value)
    tp.values = vals
    chatty(v, g, tp)
    g.Enumeration(tp)
    out = v.program(g)
    stm = lambda n, x: ('=', N(n), x)
    signed = v.some(vals, lambda e: e.value < 0)
    if size in (1, 2, 4, 8):
        width = [n for n in (1, 2, 4, 8) if size == n][0]
        ct = '%sint%d' % ('c_' if signed else 'c_u', width * 8)
    else:
        ct = 'c_int' if signed else 'c_uint'
    table = ('dict', v.each(vals, lambda e: [(e.value, e.name)]))
    v.expect_program(out, [stm(tp.name + '__enumvalues', table),
                           v.each(vals, lambda e: [stm(e.name, e.value)]),
                           stm(tp.name, A('ctypes', ct))],
                     'value table, enumerators with their values, then the type of the size and sign')
    v.expect_list(g.names, [v.each(vals, lambda e: [e.name]), tp.name], 'enumerators and type are exported')


@contract('C06.ENUM_DECL', 'cursorhandler.CursorHandler.ENUM_DECL, ENUM_CONSTANT_DECL', ['C06', 'C11', 'C13'])
def enum_decl(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v, denote=False)
    enum = Cur(v, CursorKind.ENUM_DECL, type=Typ(v, TypeKind.ENUM), location=loc(v))

    def child(sc):
        k = sc.choice('kind', [CursorKind.ENUM_CONSTANT_DECL, CursorKind.PACKED_ATTR])
        return Cur(sc, k, enum_value=sc.int('value'), semantic_parent=enum, lexical_parent=enum)
    first = v.sub('first')      # a definition has an enumerator
    first = Cur(first, CursorKind.ENUM_CONSTANT_DECL, enum_value=first.int('value'), semantic_parent=enum, lexical_parent=enum)
    enum.children = v.list(first) + v.seq('constants', child)
    before, known = None, None
    if v.choice('declared before', [False, True]):
        known = v.choice('definition', [None, enum])
        w = v.sub('fwd')
        before = p.parse_cursor(Cur(w, CursorKind.ENUM_DECL, enum.spelling, type=Typ(w, TypeKind.ENUM), location=loc(w), children=[],
                                    definition=known))
    # a definition in an included file may be visited or not
    obj = p.parse_cursor(enum) if known is None or v.choice('visited', [True, False]) else before
    v.prove(before is None or obj is before, 'the declared enumeration and the defined one are the same entity')
    v.prove(type(obj) is td.Enumeration, 'an enumeration')
    v.prove(p.parse_cursor(enum) is obj, 'a repeated declaration is the same entity')
    v.equal(obj.location[0], enum.location.file.name, 'located at its definition')
    v.equal(obj.location[1], enum.location.line, 'located at its definition')
    v.equal(obj.name, enum.spelling, 'named like the enum')
    v.equal(obj.size, enum.type.size, 'of the size of the enum')

    def same(a, c):
        v.prove(type(a) is td.EnumValue, 'enumerators are enumerators')
        v.equal(a.name, c.displayname, 'enumerator name')
        v.equal(a.value, c.enum_value, 'enumerator value')
    v.expect_list(obj.values, [v.each(enum.children, lambda c: [c] if c.kind == CursorKind.ENUM_CONSTANT_DECL else [])],
                  'every enumerator, in order', eq=same)
    v.prove(p.is_registered(enum.spelling), 'registered under its name')
    v.prove(p.get_registered(enum.spelling) is obj, 'registered under its name')


@contract('C06.Typedef', 'codegenerator.Generator.Typedef (of an enumeration)', ['C06', 'C12', 'C19'])
def typedef(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    e = td.Enumeration(v.str('enum'), 4, 4)
    done = v.choice('enum done', [True, False])
    if done:
        g.done[e] = True
    tp = td.Typedef(v.str('alias'), e)
    v.assume(tp.name != e.name)
    chatty(v, g, tp, e)
    g._generate(tp)
    out = v.program(g)
    n = len(out)
    v.prove(n >= 2, 'typedef and its table are generated')
    v.match(v.list(*list(out)[n - 2:]), [('=', N(tp.name), N(e.name)),
                                         ('=', N(tp.name + '__enumvalues'), N(e.name + '__enumvalues'))],
            'the typedef has the type and the table of the enum')
    v.prove(v.member(tp.name, g.names), 'exported')
