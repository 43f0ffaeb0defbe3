"""function prototypes"""
from .common import module_of, clang_tu, bad_c, Skip, match, rand_type, declare, SCALARS, nasty, renamed
from .c05 import BASES, PRE, tags

RULE = ('random function prototypes over derived types; restype and argtypes of the generated binding are compared with clang\'s '
        'result and parameter types; non-trivial: at least one parameter')
LIMIT = 1500


def gen(r):
    fs = []
    for _ in range(r.randint(1, 4)):
        fs.append([rand_type(r, BASES[:-1], r.randint(0, 3), void=True, arr_ok=False),
                   [rand_type(r, BASES[:-1], r.randint(0, 3), arr_ok=r.random() < .3) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]])
    return dict(fns=fs, tags=tags(r), pn=[r.choice(['c_int32', 'ctypes', 'size', 'struct_R']) if r.random() < .03 else nasty(r, 'a%d' % j, .1) for j in range(9)], names=r.choice([0, 1, 1, 2, 2]), old=r.random() < .15, doc=r.random() < .2)


def reduce(case):
    f = case['fns']
    for i in range(len(f)):
        yield dict(case, fns=f[:i] + f[i + 1:])
        for j in range(len(f[i][1])):
            yield dict(case, fns=f[:i] + [[f[i][0], f[i][1][:j] + f[i][1][j + 1:]]] + f[i + 1:])


def nontrivial(case):
    return any(p for _, p in case['fns'])


def source(case):
    out = PRE
    for i, (ret, ps) in enumerate(case['fns']):
        if case['old']:
            out += declare(['fn', ret, []], 'f%d' % i).replace('f%d(void)' % i, 'f%d()' % i) + ';\n'
        out += declare(['fn', ret, []], 'f%d' % i).replace('f%d(void)' % i, 'f%d(%s)' % (
            i, ', '.join(declare(p, case['pn'][j] if case['names'] == 1 or case['names'] == 2 and j % 2 else '') for j, p in enumerate(ps)) or 'void')) + ';\n'
    return renamed(out, case['tags'])


def check(case):
    if not case['fns']:
        raise Skip
    src = source(case)
    tu = clang_tu(src)
    if bad_c(tu):
        raise Skip
    ns, txt = module_of(src, generate_docstrings=case['doc'])
    for c in tu.cursor.get_children():
        if c.kind.name != 'FUNCTION_DECL' or c.type.kind.name != 'FUNCTIONPROTO':
            continue
        f = ns.get(c.spelling)
        if f is None or c.spelling not in ns['__all__']:
            return 'missing: %s in\n%s' % (c.spelling, src)
        m = match(f.restype, c.type.get_result(), ns)
        if m:
            return 'restype: %s: %s in\n%s' % (c.spelling, m, src)
        want = list(c.type.argument_types())
        if len(f.argtypes) != len(want):
            return 'argtypes: %s has %d, C has %d in\n%s' % (c.spelling, len(f.argtypes), len(want), src)
        # an array parameter may keep its array type or be a pointer
        for i, (a, b, d) in enumerate(zip(f.argtypes, want, c.get_arguments())):
            m = match(a, b, ns)
            if m and match(a, d.type, ns):
                return 'argtypes: %s parameter %d: %s in\n%s' % (c.spelling, i, m, src)
    return None
