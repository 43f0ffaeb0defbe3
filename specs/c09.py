"""C09: function bindings."""
from pyvc.spec import contract
from clang.cindex import CursorKind, TypeKind
from specs.common import generator, N, A, chatty, placed
from specs.cursors import Cur, Typ, parser, handler, loc
from specs.types import tdesc, known_types, E
from specs.c05 import below, maybe_registered, PARTS, Sizes

TK, CK = TypeKind, CursorKind


class Dll:
    """a library (contract of Library): offers the function or not"""

    def __init__(self, path, name, offers):
        self._filepath, self._name, self._offers = path, name, offers

    def __getattr__(self, name):
        if isinstance(name, str) and name.startswith('__') or not self.__dict__['_offers']:
            raise AttributeError(name)
        return '0123'


def binding(v, g, f, out, name):
    """the statements bind f: the library entry, the result type, the parameter types"""
    v.prove(out[0] == 'try', name + ': one statement')
    body = [st for st in out[1] if not (st[0] == '=' and st[1][0] == 'attr' and st[1][2] == '__doc__')]
    v.prove(len(body) == 3, name + ': three statements')
    v.prove(body[0][0] == '=', name + ': the function is bound first')
    v.match(body[0][1], N(f.name), name + ': named like the function')
    lib = body[0][2]
    v.prove(lib[0] == 'attr', name + ': taken from a library')
    v.match(lib[2], f.name, name + ': taken by its name')
    rest = {}
    for st in body[1:]:
        v.prove(st[0] == '=' and st[1][0] == 'attr', name + ': attributes of the function are set')
        v.match(st[1][1], N(f.name), name + ': attributes of the function are set')
        rest[st[1][2]] = st[2]
    v.prove(set(rest) == {'restype', 'argtypes'}, name + ': result and parameter types are set')
    v.match(rest['restype'], E(f.returns), name + ': restype is the result type')
    v.match(rest['argtypes'], ('list', [v.each(f.arguments, lambda a: [E(a.typ)])]), name + ': argtypes are the parameter types, all, in order')
    return lib[1]


def function_desc(v, td):
    f = td.Function(v.str('function'), tdesc(td, v, 'r.', ('fundamental', 'pointer', 'record')), [], False)
    f.arguments = v.seq('args', lambda sc: td.Argument(sc.str('argname'), tdesc(td, sc, 't.', ('fundamental', 'pointer to function'))))
    return f


@contract('C09.Function', 'codegenerator.Generator.Function', ['C09', 'C12', 'C14', 'C13'], modes=('proof', 'bounded', 'concrete'))
def function(v, chat=False):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    g.parser = Sizes()
    f = function_desc(v, td)
    g.needed = v.list()
    g._generate = lambda item, *a: g.needed.append(item.expr)
    lib = v.choice('library', [None, True])
    if lib:
        g.searched_dlls = [Dll('/x/lib.so', 'lib.so', True)]
    if chat:
        chatty(v, g)
        f.location = placed(v)
    g.Function(f)
    out = v.program(g)
    v.prove(len(out) == 1, 'one statement')
    entry = binding(v, g, f, out[0], 'binding')
    v.prove(entry == ('sub', N('_libraries'), 'lib.so' if lib else 'FIXME_STUB'), 'the library that offers it, or the stub')
    v.match(list(out[0][2]), [(N('AttributeError'), [('pass',)])], 'a function the library lacks is left out')
    v.expect_list(g.names, [f.name], 'exported')
    v.prove(v.member(f.returns.expr, g.needed), 'the result type is generated first')
    for a in v.any(f.arguments):
        v.prove(v.member(a.typ.expr, g.needed), 'every parameter type is generated first')
    ns = v.program(g, 'imports')
    v.prove(any(st[0] == '=' and st[1] == entry for st in ns), 'the library is in the table')


@contract('C19.Function', 'codegenerator.Generator.Function (with comments, locations and docstrings)', ['C19'])
def chatty_function(v):
    function(v, True)


@contract('C09.FUNCTION_DECL', 'cursorhandler.CursorHandler.FUNCTION_DECL', ['C09', 'C11'])
def function_decl(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    res = below(v, v, td, 'res.', PARTS)
    t = Typ(v.sub('fn'), TK.FUNCTIONPROTO, result=res)
    args = v.seq('args', lambda sc: Cur(sc, CK.PARM_DECL, desc=td.Argument(sc.str('argname'), td.Typedef(sc.str('tname'), None))))
    c = Cur(v, CK.FUNCTION_DECL, type=t, arguments=args, location=loc(v))
    before = None
    if v.choice('declared without a prototype before', [False, True]):
        w = v.sub('fwd')
        before = p.parse_cursor(Cur(w, CK.FUNCTION_DECL, c.spelling, type=Typ(w, TK.FUNCTIONNOPROTO, result=res), arguments=[], location=loc(w), definition=None))
    f = p.parse_cursor(c)
    v.prove(before is None or f is before, 'the function is one entity')
    v.prove(p.parse_cursor(c) is f, 'a repeated declaration is the same entity')
    v.prove(type(f) is td.Function, 'a function')
    v.equal(f.name, c.spelling, 'of its name')
    v.prove(f.returns is res.desc, 'result type')

    def same(a, b):
        v.prove(type(a) is td.Argument, 'parameter')
        v.equal(a.typ.name, b.typ.name, 'parameter type')
    v.expect_list(f.arguments, [v.each(args, lambda a: [a.desc])], 'every parameter, in order', eq=same)
    v.prove(p.is_registered(c.spelling) and p.get_registered(c.spelling) is f, 'registered under its name')


@contract('C09.PARM_DECL', 'cursorhandler.CursorHandler.PARM_DECL', ['C09', 'C05'])
def parm_decl(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    t = below(v, v, td, 't.', [k for k in PARTS[1:] + (TK.TYPEDEF,) if k not in (TK.FUNCTIONPROTO, TK.FUNCTIONNOPROTO)])
    maybe_registered(v, p, t)
    c = Cur(v, CK.PARM_DECL, type=t, location=loc(v))
    a = p.parse_cursor(c)
    v.prove(type(a) is td.Argument, 'a parameter')
    v.prove(a.typ is t.desc, 'of its type')
    v.equal(a.name, c.spelling, 'of its name')
