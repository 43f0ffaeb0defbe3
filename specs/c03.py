"""C03: scalar types.  The sizes clang can assign to a scalar are finitely many: every case is executed."""
import ctypes
import re
from pyvc.spec import contract
from clang.cindex import CursorKind, TypeKind
from specs.common import generator, patched
from specs.cursors import Cur, Typ, parser

TK, CK = TypeKind, CursorKind
UNSIGNED = (TK.USHORT, TK.UINT, TK.ULONG, TK.ULONGLONG, TK.UCHAR, TK.CHAR_U)
INTS = {'short': (TK.SHORT, TK.USHORT), 'int': (TK.INT, TK.UINT), 'long': (TK.LONG, TK.ULONG), 'long long': (TK.LONGLONG, TK.ULONGLONG)}


class Clang:
    """clang on one target: the sizes of its scalar types; answers for `typedef T name;` sources"""

    def __init__(self, v):
        s = self.sizes = {'char': 1, 'signed char': 1, 'unsigned char': 1, '_Bool': 1, 'float': 4, 'short': 2, 'long long': 8}
        s['int'] = v.choice('int', [4, 2])
        s['long'] = v.choice('long', [8, 4])
        s['double'] = v.choice('double', [8, 4])
        s['long double'] = v.choice('long double', [16, 12, 8])
        s['void*'] = v.choice('pointer', [8, 4])
        v.assume(s['double'] <= s['long double'])
        self.asked = []

    def get_tu(self, source, lang='c', all_warnings=False, flags=None, options=0):
        self.asked.append(list(flags or []))
        return dict((n, re.sub(r'\s*\*', '*', t.strip())) for t, n in re.findall(r'typedef\s+([^;]*?[\s*])\s*(\w+)\s*;', source))

    def get_cursor(self, tu, name):
        c = Cur.__new__(Cur)
        c.kind, c.spelling = CK.TYPEDEF_DECL, name
        t = c.type = Typ.__new__(Typ)
        t.kind, t.canonical, t.size = TK.TYPEDEF, t, self.sizes[self.plain(tu[name])]
        return c

    @staticmethod
    def plain(t):
        if t.endswith('*'):
            return 'void*'
        w = [x for x in t.split() if x not in ('unsigned', 'signed')] if t not in ('signed char', 'unsigned char') else [t]
        if len(w) > 1 and w[-1] == 'int':
            w = w[:-1]
        return ' '.join(w) or 'int'


def real_parser(v, clang, flags):
    cp, ut = v.mod('ctypeslib.codegen.clangparser'), v.mod('ctypeslib.codegen.util')
    with patched(ut, get_tu=clang.get_tu, get_cursor=clang.get_cursor):
        return cp.Clang_Parser(flags)


def load(v, g, expr):
    """what the type expression is in the generated module"""
    text = str(g.imports.getvalue()) + '\n' + str(g.stream.getvalue()) + '\n_result = %s\n' % expr
    ns = {}
    keep = getattr(ctypes, '_pointer_t_type_cache', None)
    try:
        exec(text, ns)
        return ns['_result']
    except Exception as e:
        v.prove(False, 'the type expression is defined in the module', detail='%s: %s\n%s' % (type(e).__name__, e, text[-800:]))
    finally:
        if keep is not None:
            ctypes._pointer_t_type_cache = keep


def setup(v):
    clang = Clang(v)
    flags = v.choice('flags', [['-target', 'some-target'], []])
    p = real_parser(v, clang, flags)
    v.prove(all(f == flags for f in clang.asked), 'clang is asked for the selected target')
    g = generator(v, clang_opts=flags)
    v.prove(g.cross_arch_code_generation == bool(flags), 'a target was selected')
    g.generate_headers(p)
    return clang, flags, p, g


@contract('C03.scalars', 'clangparser.Clang_Parser.make_ctypes_convertor, typehandler._handle_fundamental_types, codegenerator.FundamentalType, generate_headers',
          'C03', modes=('proof', 'bounded', 'concrete'))
def scalars(v):
    clang, flags, p, g = setup(v)
    names = list(INTS) + ['char', 'signed char', 'unsigned char', 'plain unsigned char', '_Bool', 'float', 'double', 'long double']
    n = v.choice('type', names)
    size = clang.sizes.get(n, 1)
    if n in INTS:
        k = INTS[n][v.choice('unsigned', [0, 1])]
    else:
        k = {'char': TK.CHAR_S, 'signed char': TK.SCHAR, 'unsigned char': TK.UCHAR, 'plain unsigned char': TK.CHAR_U, '_Bool': TK.BOOL,
             'float': TK.FLOAT, 'double': TK.DOUBLE, 'long double': TK.LONGDOUBLE}[n]
    t = Typ.__new__(Typ)
    t.kind, t.spelling, t.canonical, t.size, t.align, t.desc = k, n, t, size, size, None
    ct = load(v, g, str(g.type_name(p.parse_cursor_type(t))))
    v.prove(ctypes.sizeof(ct) == size, 'a ctypes type of the size clang assigns', detail='%s: %r, %d bytes' % (n, ct, size))
    code = getattr(ct, '_type_', None)
    if n == '_Bool':
        v.prove(code == '?', 'boolean')
    elif n == 'char':
        v.prove(code == 'c', 'character')
    elif n in ('float', 'double'):
        v.prove(code in ('f', 'd', 'g'), 'floating')
    elif n == 'long double':
        v.prove(code in ('f', 'd', 'g') or isinstance(ct, type) and issubclass(ct, ctypes.Array), 'floating, or its bytes')
    elif n == 'plain unsigned char':
        v.prove(code in ('c', 'B'), 'character')
    else:
        v.prove(code in tuple('bBhHiIlLqQ'), 'an integer type', detail='%r' % (ct,))
        v.prove((ct(-1).value < 0) == (k not in UNSIGNED), 'of the same signedness')


@contract('C03.pointers', 'clangparser.Clang_Parser.make_ctypes_convertor, codegenerator.enable_pointer_type, data/pointer_type.tpl', 'C03',
          modes=('proof', 'bounded', 'concrete'))
def pointers(v):
    clang, flags, p, g = setup(v)
    v.assume(bool(flags))
    td = v.mod('ctypeslib.codegen.typedesc')
    b = v.choice('pointee', ['None', 'c_int32', 'c_double', 'c_char', 'record'])
    to = td.FundamentalType(b, 1, 1) if b != 'record' else None
    if to is None:
        print('class struct_s(ctypes.Structure):\n    _fields_ = [("a", ctypes.c_char)]', file=g.imports)
        to = td.Structure('struct_s', 1, [], [], 1)
    t = td.PointerType(to, clang.sizes['void*'], 8)
    if v.choice('levels', [1, 2]) == 2:
        t = td.PointerType(t, clang.sizes['void*'], 8)
    ct = load(v, g, str(g.type_name(t)))
    v.prove(ctypes.sizeof(ct) == clang.sizes['void*'], 'the size of the pointers of the target', detail='%r' % (ct,))


@contract('C03.two_parsers', 'clangparser.Clang_Parser.__init__', ['C03', 'C04'], modes=('proof', 'bounded', 'concrete'))
def two_parsers(v):
    """a parser for another target made before or after"""
    a, b = Clang(v), Clang.__new__(Clang)
    b.asked = []
    b.sizes = dict(a.sizes)
    b.sizes.update({'int': 6 - a.sizes['int'], 'long': 12 - a.sizes['long'], 'double': 12 - a.sizes['double'], 'void*': 12 - a.sizes['void*'],
                    'long double': 16 if a.sizes['long double'] != 16 else 12})
    p0 = real_parser(v, a, ['-target', 'a'])
    names, sizes = dict(p0.ctypes_typename), dict(p0.ctypes_sizes)
    real_parser(v, b, ['-target', 'b'])
    v.prove(p0.ctypes_typename == names and p0.ctypes_sizes == sizes, 'a later parser does not change it')
    p1 = real_parser(v, a, ['-target', 'a'])
    v.prove(p1.ctypes_typename == names and p1.ctypes_sizes == sizes, 'an earlier parser does not change it')
