"""structure of derived types"""
from .common import module_of, clang_tu, bad_c, Skip, match, rand_type, declare, SCALARS, nasty, renamed, confusable

RULE = ('random nestings of pointers, arrays and function pointers over scalars, records, enums and typedefs, used as record members '
        'and typedefs; the generated ctypes type is compared level by level with clang\'s canonical type; non-trivial: at least one derived type')
LIMIT = 1500
BASES = SCALARS[:14] + ['struct R', 'struct R', 'union W', 'enum E', 'T1', 'T2', 'struct F']
PRE = '''enum E { EA, EB };
typedef unsigned short T1;
struct R { int a; };
union W { int a; char b; };
typedef struct R *T2;
struct F;
'''


def tags(r):
    """other names for the types of PRE"""
    if r.random() < .3:
        d = confusable(r, ['R', 'W', 'E', 'F'])
        if d['E'].startswith(('struct_', 'union_')):       # (the generated name of an enum is its tag)
            d['E'] = 'enum_' + d['E']
        return d
    return {n: nasty(r, n) for n in ('R', 'W', 'E', 'T1', 'T2', 'F')} if r.random() < .5 else {}


def gen(r):
    return dict(names=tags(r), types=[rand_type(r, BASES, r.randint(0, 5)) for _ in range(r.randint(1, 4))])


def reduce(case):
    for i in range(len(case['types'])):
        yield dict(case, types=case['types'][:i] + case['types'][i + 1:])
        t = case['types'][i]
        for s in t[1:]:
            if isinstance(s, list) and s and isinstance(s[0], str):
                yield dict(case, types=case['types'][:i] + [s] + case['types'][i + 1:])


def nontrivial(case):
    return any(len(t) > 1 for t in case['types'])


def source(case):
    return renamed(PRE + 'struct Q {\n' + ''.join('  %s;\n' % declare(t, 'm%d' % i) for i, t in enumerate(case['types'])) + '};\n' + \
        ''.join('typedef %s;\n' % declare(t, 'D%d' % i) for i, t in enumerate(case['types'])), case['names'])


def check(case):
    if not case['types']:
        raise Skip
    src = source(case)
    tu = clang_tu(src)
    if bad_c(tu):
        raise Skip
    ns, txt = module_of(src)
    for c in tu.cursor.get_children():
        if c.spelling == 'Q':
            got = dict(f[:2] for f in ns['struct_Q']._fields_)
            for f in c.type.get_fields():
                m = match(got[f.spelling], f.type, ns)
                if m:
                    return 'member: %s %s: %s in\n%s' % (f.type.spelling, f.spelling, m, src)
        elif c.kind.name == 'TYPEDEF_DECL' and c.spelling[0] == 'D':
            if c.type.get_canonical().kind.name == 'VOID':
                continue
            m = match(ns[c.spelling], c.type, ns)
            if m:
                return 'typedef: %s %s: %s in\n%s' % (c.type.get_canonical().spelling, c.spelling, m, src)
    return None
