"""C14: which library a function is bound to."""
import string
from pyvc.spec import contract, And, Or, Not
from pyvc.rope import SymStr, Join
from pyvc.values import parts_of, Seg
from specs.common import patched, Raised, generator, N, A
from specs.types import known_types, E

HEX = frozenset(string.hexdigits)
PRINT = frozenset(string.printable) - frozenset(' \n\r\t\x0b\x0c')
NAME = PRINT - {'@'}


class Line:
    """a line of nm: <address> <kind> <name>[@[@]<version>]"""

    def __init__(self, sc):
        self.kind = sc.str('kind', charset=frozenset(string.ascii_letters))
        self.name = sc.str('name', charset=NAME)
        ver = sc.choice('version', ['', '@@', '@'])
        default = ver != '@'
        if ver:
            ver = ver + sc.str('ver', charset=NAME)
        self.text = sc.str('address', charset=HEX) + ' ' + self.kind + ' ' + self.name + ver
        self.offered = self.name if default else self.name + ver


def text(v, lines):
    """what nm prints for the lines"""
    if v.mode == 'proof':
        p, = parts_of(lines)
        return SymStr((Join('\n', [Seg(p.seq, maps=(lambda l, i: l.text,)), '']),))
    r = ''
    for l in lines:
        r = r + l.text + '\n'
    return r


@contract('C14.symbols', 'library.LibraryMeta.__call__, Library.__init__, _get_symbols, __getattr__', 'C14')
def symbols(v):
    lb = v.mod('ctypeslib.library')
    calls = []
    lines = v.seq('lines', Line)

    class Sub:
        @staticmethod
        def check_output(cmd, *a, **k):
            calls.append(list(cmd))
            return text(v, lines)
    with patched(lb, subprocess=Sub):
        lib = lb.Library('/dev/null', nm='my-nm')
    cmd = calls[0] if calls else []
    v.prove(len(calls) == 1 and cmd[0] == 'my-nm' and '/dev/null' in cmd and ('--dynamic' in cmd or '-D' in cmd) and
            '--defined-only' in cmd, 'the given nm lists the defined dynamic symbols of the given file')
    q = v.str('asked', charset=PRINT)
    r = Raised(AttributeError, type(lib).__getattr__, lib, q)
    offered = v.some(lines, lambda l: And(Or(*[l.kind == k for k in 'TDRGS']), l.offered == q))
    v.prove((r.exc is None) == offered, 'a name is offered exactly when a defined T, D, R, G or S symbol has it')


class Dll:
    """a library given with -l: contract of Library / ctypes.CDLL"""

    def __init__(self, sc, offers):
        self._index = sc.idx()
        self._filepath = sc.str('path', 'text')
        self._name = sc.str('file')
        self._offers = lambda n: offers(self._filepath, n)

    def __getattr__(self, name):
        if name.startswith('__') if isinstance(name, str) else False:
            raise AttributeError(name)
        if self.__dict__['_offers'](name):
            return '0123'
        raise AttributeError(name)


@contract('C14.find_library', 'codegenerator.Generator.find_library_with_func', 'C14')
def find_library(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    offers = v.pred('offers', 'str', 'str')
    libs = v.seq('libs', lambda sc: Dll(sc, offers))
    g.searched_dlls = libs
    f = td.Function(v.str('function'), None, None, None)
    r = g.find_library_with_func(f)
    if v.some(libs, lambda l: l._offers(f.name)):
        v.prove(r is not None and r._offers(f.name), 'the library offers the function')
        v.prove(not v.some(libs, lambda l: And(l._offers(f.name), l._index < r._index)),
                'no library given earlier offers the function')
    else:
        v.prove(r is None, 'no library when none offers the function')


class GivenLib:
    def __init__(self, path, name):
        self._filepath, self._name = path, name


class LinkerLib:
    """ctypes.CDLL"""

    def __init__(self, name):
        self._name = name


@contract('C14.get_sharedlib', 'codegenerator.Generator.get_sharedlib, _library_key, need_CLibraries', ['C14', 'C13'])
def get_sharedlib(v):
    """three libraries in any order and number of uses (the number of libraries is bounded, their names are not)"""
    g = generator(v)
    libs = []
    for i in range(3):
        path = v.str('path%d' % i, charset=NAME - set("'\\"))
        libs.append(v.choice('kind%d' % i, ['given', 'linker']) == 'given' and GivenLib(path, v.str('file%d' % i)) or LinkerLib(path))
    got = []
    for i in (0, 1, 2, 0, 1, 2):
        e = v.expr(g.get_sharedlib(libs[i], 'cdecl'))
        v.prove(e[0] == 'sub' and e[1] == N('_libraries'), 'an entry of the table of libraries')
        got.append((getattr(libs[i], '_filepath', libs[i]._name), e[2]))
    opened = []
    for st in v.program(g, 'imports'):
        if st[0] == '=' and st[1][0] == 'sub':
            v.prove(st[1][1] == N('_libraries') and st[2][0] == 'call' and st[2][1] == A('ctypes', 'CDLL'), 'entries are opened libraries')
            opened.append((st[1][2], st[2][2][0]))
    for path, key in got:
        hit = [p for k, p in opened if bool(k == key)]
        v.prove(len(hit) == 1, 'the entry is filled once')
        v.equal(hit[0] if hit else None, path, 'the entry is the library of the given path')
    for i in range(len(opened)):
        for j in range(i):
            v.prove(Not(opened[i][1] == opened[j][1]), 'each library is opened once')


@contract('C14.extern_variable', 'codegenerator.Generator.Variable (declared extern, found in a library)', ['C14', 'C12', 'C19'],
          modes=('proof', 'bounded', 'concrete'))
def extern_variable(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    g.needed = v.list()
    g._generate = lambda item, *a: g.needed.append(item)
    lib = GivenLib(v.str('path', charset=NAME - set("'\\")), v.str('file'))
    asked = []

    def find(x):
        asked.append(x)
        return lib
    g.find_library_with_func = find
    table = v.str('table', 'expr')
    g.get_sharedlib = lambda library, *a, **k: asked.append(library) or table
    t = td.FundamentalType(v.choice('type', ['c_int32', 'c_double', 'c_char']), 0, 0)
    t.expr = v.str('expr', 'expr')
    want = E(t)
    shape = v.choice('shape', ['scalar', 'array', 'pointer'])
    if shape == 'array':
        n = v.int('length', 1)
        want = ('bin', 'Mult', want, n)
        t = td.ArrayType(t, n)
    elif shape == 'pointer':
        t = td.PointerType(t, 8, 8)
        t.expr = v.str('pexpr', 'expr')
        want = E(t)
    tp = td.Variable(v.str('name'), t, None, True)
    tp.comment = None
    g.Variable(tp)
    v.prove(all(x is tp or x is lib for x in asked) and any(x is tp for x in asked) and any(x is lib for x in asked),
            'the library is the one found for this variable')
    got = v.program(g)
    v.expect_program(got, [('=', N(tp.name), ('call', A(want, 'in_dll'), [v.expr(table), tp.name], []))],
                     'the variable is that of the library, of its type')
    v.expect_list(g.names, [tp.name], 'exported')
    v.prove(any(x is t for x in g.needed), 'its type is generated')
