"""the module loads and exports what it defines"""
import random
from .common import text_of, clang_tu, bad_c, Skip
from . import progs, c01, c02, c05, c06, c07, c08, c09, c11

RULE = ('random programs of all kinds of declarations (records, enums, typedefs, functions, variables, macros, selections); the module text is '
        'executed in an empty namespace and __all__ is compared with the declarations; non-trivial: all cases')
LIMIT = 1200


MORE = ['char m%d;', 'int m%d;', 'long m%d;', 'enum E m%d;', 'char m%d[1];', 'struct { char c; } m%d;', 'int m%d __attribute__((aligned(32)));',
        'void *m%d;', 'long double m%d;']


def gen(r):
    k = r.randint(0, 9)
    if k == 9:
        fs = [c02.bitfield(r, 'b%d' % i) if r.random() < .7 else r.choice(MORE) % i for i in range(r.randint(1, 6))]
        src = 'enum E { EA, EB };\ntypedef unsigned short T1;\nstruct S { %s };\nenum E e;\n' % ' '.join(fs)
        return dict(src=src, macros=False, doc=r.random() < .2, lib=False)
    m = {0: c01, 1: c05, 2: c06, 3: c07, 4: c08, 5: c09, 6: c11}.get(k)
    if m is None:
        ds = progs.program(r, macros=True)
        return dict(src=progs.text(ds), macros=True, doc=r.random() < .3, lib=r.random() < .2)
    c = m.gen(r)
    if m is c07:
        src = c07.PRE + '\n'.join(d for d, _ in c['vars']) + '\n'
    elif m is c08:
        src = ''.join(d + '\n' for _, d, _ in c['macros'])
    elif m is c11:
        src = '\n'.join(c['lines']) + '\n'
    else:
        src = m.source(dict(c, target=None))
    return dict(src=src, macros=True, doc=r.random() < .2, lib=False)


def reduce(case):
    ls = case['src'].splitlines()
    for i in range(len(ls)):
        yield dict(case, src='\n'.join(ls[:i] + ls[i + 1:]) + '\n')


def nontrivial(case):
    return True


# see the known findings: python has no literal for an infinite value, ctypes no bit-field of more than 64 bits
FIXED = [dict(src='double v = 1e999;\n', macros=False, doc=False, lib=False, known='overflow'),
         dict(src='struct S { __int128 a : 100; };\n', macros=False, doc=False, lib=False, known='int128bits')]


def check(case):
    r = check1(case)
    return '%s: %s' % (case['known'], r) if r and case.get('known') else r


def check1(case):
    tu = clang_tu(case['src'])
    if bad_c(tu):
        raise Skip
    txt = text_of(case['src'], macros=case['macros'], generate_docstrings=case['doc'])
    ns = {}
    try:
        exec(compile(txt, '<generated>', 'exec'), ns)
    except Exception as e:
        return 'load: %s: %s for\n%s\n%s' % (type(e).__name__, e, case['src'], txt[-600:])
    a = ns.get('__all__')
    if not isinstance(a, list) or a != sorted(a):
        return 'sorted: __all__ is %r' % (a,)
    lost = [n for n in a if n not in ns]
    if lost:
        return 'undefined: %s is in __all__ only, for\n%s' % (lost, case['src'])
    for c in tu.cursor.walk_preorder():
        n = None
        k = c.kind.name
        top = c.semantic_parent is not None and c.semantic_parent.kind.name == 'TRANSLATION_UNIT'
        if k in ('STRUCT_DECL', 'UNION_DECL') and c.spelling and '(' not in c.spelling and top:
            n = ('struct_' if k[0] == 'S' else 'union_') + c.spelling
        elif k in ('ENUM_DECL', 'TYPEDEF_DECL', 'FUNCTION_DECL', 'VAR_DECL', 'ENUM_CONSTANT_DECL') and c.spelling and '(' not in c.spelling and (top or k[0] == 'E'):
            n = c.spelling
        if n and n not in a:
            return 'exported: %s is not in __all__ for\n%s' % (n, case['src'])
    return None
