"""C05: type expressions mirror the C type."""
from pyvc.spec import contract
from clang.cindex import CursorKind, TypeKind
from specs.common import generator, N, A
from specs.cursors import Cur, Typ, parser, handler, types, TU
from specs.types import tdesc, known_types, E

TK, CK = TypeKind, CursorKind


class Sizes:
    flags = ()

    @staticmethod
    def get_ctypes_size(kind):
        return 64


def gen(v):
    g = known_types(generator(v))
    g.parser = Sizes()
    return g


@contract('C05.type_name', 'codegenerator.Generator.type_name (arrays, pointers, named types)', ['C05', 'C02', 'C09'], modes=('proof', 'bounded', 'concrete'))
def type_name(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = gen(v)
    cross = v.choice('cross', [False, True])
    g.cross_arch_code_generation = cross
    k = v.choice('constructor', ['array', 'pointer', 'fp', 'record', 'union', 'typedef', 'enum'])
    if k == 'array':
        b = tdesc(td, v, 'b.')
        n = v.int('n', 0)
        v.match(v.expr(g.type_name(td.ArrayType(b, n))), ('bin', 'Mult', E(b), n), 'an array of n elements of its element type')
    elif k == 'pointer':
        b = tdesc(td, v, 'b.', ('fundamental', 'char', 'record', 'union', 'typedef', 'enum', 'pointer', 'array', 'pointer to function'))
        v.match(v.expr(g.type_name(td.PointerType(b, 8, 8))), ('call', N('POINTER_T') if cross else A('ctypes', 'POINTER'), [E(b)], []),
                'one pointer to the pointed type')
    elif k == 'fp':
        b = tdesc(td, v, 'b.', ('function',))
        v.match(v.expr(g.type_name(td.PointerType(b, 8, 8))), E(b), 'a pointer to a function is the function type')
    else:
        name = v.str('name')
        t = dict(record=lambda: td.Structure(name, 4, [], [], 4), union=lambda: td.Union(name, 4, [], [], 4),
                 typedef=lambda: td.Typedef(name, tdesc(td, v, 'b.')), enum=lambda: td.Enumeration(name, 4, 4))[k]()
        v.match(v.expr(g.type_name(t)), N(name), 'a named type is its name')


@contract('C05.function_type_name', 'codegenerator.Generator.type_name (function types)', ['C05', 'C09'], modes=('proof', 'bounded', 'concrete'))
def function_type_name(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = gen(v)
    t = td.FunctionType(tdesc(td, v, 'r.'), v.choice('attributes', [[], ['__cdecl__']]))
    t.arguments = v.seq('args', lambda sc: td.Argument(sc.str('argname'), tdesc(td, sc, 't.', ('fundamental', 'record', 'pointer'))))
    v.match(v.expr(g.type_name(t)), ('call', A('ctypes', 'CFUNCTYPE'), [E(t.returns), v.each(t.arguments, lambda a: [E(a.typ)])], []),
            'result type first, then every parameter type in order')


SCALARS = (TK.VOID, TK.BOOL, TK.CHAR_S, TK.UCHAR, TK.SCHAR, TK.INT, TK.UINT, TK.LONG, TK.DOUBLE)


CLASS = {TK.POINTER: ('pointer', 'pointer to function'), TK.CONSTANTARRAY: ('array',), TK.INCOMPLETEARRAY: ('array',), TK.FUNCTIONPROTO: ('function',),
         TK.FUNCTIONNOPROTO: ('function',), TK.RECORD: ('record', 'union'), TK.ENUM: ('enum',), TK.TYPEDEF: ('typedef',)}


def below(v, sc, td, n, kinds):
    """a C type below the one under contract: parsing it (as a type or by its declaration) gives `desc`;
    a declaration may have been registered before"""
    k = sc.choice(n + 'kind', kinds)
    d = tdesc(td, sc, n, CLASS.get(k, ('fundamental',)))
    t = Typ(sc.sub(n + 't'), k, desc=d)
    if k in (TK.RECORD, TK.ENUM, TK.TYPEDEF):
        ck = {TK.RECORD: CK.STRUCT_DECL, TK.ENUM: CK.ENUM_DECL, TK.TYPEDEF: CK.TYPEDEF_DECL}[k]
        t.decl = Cur(sc.sub(n + 'd'), ck, desc=d, type=t)
    return t


def maybe_registered(v, p, t):
    """the declaration of a type may have been met before, and another one of any other name, too (which is returned)"""
    if t.decl is None:
        return None
    name = handler(p).get_unique_name(t.decl)
    if v.choice('registered', [False, True]):
        p.all[name] = t.desc
        p.all_set.add((name, t.desc))
    if v.choice('another', [False, True]):
        td = v.mod('ctypeslib.codegen.typedesc')
        other = v.str('other.name')
        v.assume(other != name)
        o = td.Typedef(other, None)
        p.all[other] = o
        p.all_set.add((other, o))
        return other
    return None


PARTS = SCALARS[:5] + (TK.POINTER, TK.CONSTANTARRAY, TK.INCOMPLETEARRAY, TK.FUNCTIONPROTO, TK.FUNCTIONNOPROTO, TK.RECORD, TK.ENUM)


@contract('C05.POINTER', 'typehandler.TypeHandler.POINTER', ['C05', 'C02', 'C09'])
def pointer(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    to = below(v, v, td, 'to.', PARTS)
    maybe_registered(v, p, to)
    if v.choice('typedef', [False, True]):
        named = Typ(v.sub('named'), TK.TYPEDEF, desc=to.desc, canonical=to)
        to = named
    t = Typ(v.sub('ptr'), TK.POINTER, pointee=to)
    obj = p.parse_cursor_type(t)
    v.prove(type(obj) is td.PointerType, 'a pointer')
    v.prove(obj.typ is to.desc, 'to the pointed type')
    v.equal(obj.size, t.size, 'of the size of the pointer')


@contract('C05.array', 'typehandler.TypeHandler._array_handler', ['C05', 'C01', 'C02'])
def array(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    el = below(v, v, td, 'el.', [k for k in PARTS if k not in (TK.VOID, TK.FUNCTIONPROTO, TK.FUNCTIONNOPROTO)])
    maybe_registered(v, p, el)
    k = v.choice('array', [TK.CONSTANTARRAY, TK.INCOMPLETEARRAY])
    n = v.int('n', 0) if k == TK.CONSTANTARRAY else -1
    t = Typ(v.sub('arr'), k, element=el, count=n)
    obj = p.parse_cursor_type(t)
    v.prove(type(obj) is td.ArrayType, 'an array')
    v.prove(obj.typ is el.desc, 'of the element type')
    v.equal(obj.size, n if k == TK.CONSTANTARRAY else 0, 'of the same length')


@contract('C05.FUNCTIONPROTO', 'typehandler.TypeHandler.FUNCTIONPROTO, FUNCTIONNOPROTO', ['C05', 'C09', 'C13'])
def functionproto(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    res = below(v, v, td, 'res.', PARTS)
    k = v.choice('function', [TK.FUNCTIONPROTO, TK.FUNCTIONNOPROTO])
    t = Typ(v.sub('fn'), k, result=res)
    t.args = v.seq('args', lambda sc: Typ(sc, sc.choice('kind', [TK.INT, TK.POINTER]), desc=td.Typedef(sc.str('name'), None)))
    obj = p.parse_cursor_type(t)
    v.prove(type(obj) is td.FunctionType, 'a function type')
    v.prove(obj.returns is res.desc, 'result type')
    def same(a, d):
        v.prove(type(a.typ) is type(d), 'parameter type')
        v.equal(a.typ.name, d.name, 'parameter type')
    if k == TK.FUNCTIONPROTO:
        v.expect_list(obj.arguments, [v.each(t.args, lambda a: [a.desc])], 'every parameter type, in order',
                      eq=same)
    else:
        v.expect_list(obj.arguments, [], 'no parameter types')


@contract('C05.named', 'typehandler.TypeHandler.TYPEDEF, ENUM, ELABORATED, RECORD, UNEXPOSED', ['C05', 'C02', 'C11'])
def named(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    k, ck = v.choice('kind', [(TK.TYPEDEF, CK.TYPEDEF_DECL), (TK.ENUM, CK.ENUM_DECL), (TK.RECORD, CK.STRUCT_DECL), (TK.RECORD, CK.UNION_DECL),
                              (TK.ELABORATED, CK.STRUCT_DECL), (TK.ELABORATED, CK.ENUM_DECL), (TK.ELABORATED, CK.TYPEDEF_DECL),
                              (TK.UNEXPOSED, CK.STRUCT_DECL)])
    t = Typ(v.sub('t'), k)
    d = tdesc(td, v, 'd.', ('record', 'union', 'typedef', 'enum'))
    t.decl = Cur(v.sub('decl'), ck, desc=d, type=t)
    maybe_registered(v, p, t)
    if t.decl is not None:
        t.desc = None
    reg = handler(p).get_unique_name(t.decl)
    if p.is_registered(reg):
        d = p.get_registered(reg)
    v.prove(p.parse_cursor_type(t) is d, 'the type of its declaration')
