"""enums"""
import ctypes
from .common import module_of, clang_tu, bad_c, Skip, nasty

RULE = ('random C enums (negative, large, repeated, computed values, packed, -fshort-enums, unnamed, inside records, types of bit-fields, typedefs); constants, value '
        'table, size and signedness are compared with clang; non-trivial: at least two enumerators')
LIMIT = 1500


def value(r):
    return r.choice([None, None, str(r.randint(-3, 40)), '-1', '0x%x' % r.randint(0, 2**31 - 1), str(r.choice([255, 256, 127, 128, -128, -129, 65535, 65536,
                    2**31 - 1, -2**31])), '1 << %d' % r.randint(0, 30), "'a'", '-(%d)' % r.randint(1, 9), str(r.choice([2**32, 2**40, -2**40, 2**63 - 1]))])


def gen(r):
    es = []
    for k in range(r.randint(1, 3)):
        es.append([r.choice([nasty(r, 'E%d' % k)] * 5 + ['']), [value(r) for _ in range(r.randint(1, 6))], r.choice(['', '', '', '__attribute__((packed))']),
                   r.choice(['', '', 'typedef', 'member', 'declared', 'bits'])])
    return dict(enums=es, short=r.random() < .2)


def reduce(case):
    e = case['enums']
    for i in range(len(e)):
        yield dict(case, enums=e[:i] + e[i + 1:])
        for j in range(len(e[i][1])):
            if len(e[i][1]) > 1:
                yield dict(case, enums=e[:i] + [[e[i][0], e[i][1][:j] + e[i][1][j + 1:]] + e[i][2:]] + e[i + 1:])


def nontrivial(case):
    return any(len(e[1]) > 1 for e in case['enums'])


def source(case):
    out = []
    for k, (n, vals, at, how) in enumerate(case['enums']):
        body = ', '.join('K%d_%d%s' % (k, j, '' if v is None else ' = ' + v) for j, v in enumerate(vals))
        d = 'enum %s %s { %s }' % (at, n, body)
        if how == 'declared' and n:
            out.append('enum %s;' % n)
        if how == 'typedef':
            out.append('typedef %s TE%d;' % (d, k))
        elif how == 'bits' and n:
            out.append(d + ';')
            out.append('struct H%d { int a : 3; enum %s m : 2; unsigned z : 30; }; struct G%d { enum %s m : 1; int b : 20; int c : 9; };' % (k, n, k, n))
        elif how == 'member':
            out.append('struct H%d { %s m; };' % (k, d))
        else:
            out.append(d + ';')
    return '\n'.join(out) + '\n'


def enums(c, out):
    for x in c.get_children():
        if x.kind.name == 'ENUM_DECL':
            out.append(x)
        elif x.kind.name in ('STRUCT_DECL', 'TYPEDEF_DECL'):
            enums(x, out)
    return out


def check(case):
    if not case['enums']:
        raise Skip
    src = source(case)
    opts = ['-fshort-enums'] if case['short'] else []
    tu = clang_tu(src, opts)
    if bad_c(tu):
        raise Skip
    ns, txt = module_of(src, opts=opts)
    seen = set()
    for d in enums(tu.cursor, []):
        if d.hash in seen or not d.is_definition():
            continue
        seen.add(d.hash)
        vals = [(c.spelling, c.enum_value) for c in d.get_children() if c.kind.name == 'ENUM_CONSTANT_DECL']
        for n, v in vals:
            if type(ns.get(n)) is not int or ns[n] != v:
                return 'value: %s is %r, C says %d in\n%s' % (n, ns.get(n), v, src)
            if n not in ns['__all__']:
                return 'exported: %s is not in __all__ in\n%s' % (n, src)
        name = d.spelling if d.spelling and '(' not in d.spelling else None
        if name:
            r = table(ns, name, vals, d.type.get_size())
            if r:
                return r + ' in\n' + src
        else:
            # the table of an unnamed enum has a made up name
            tabs = [v for n, v in ns.items() if n.endswith('__enumvalues') and isinstance(v, dict) and set(v.values()) <= {x for x, _ in vals}
                    and set(v) == {x for _, x in vals}]
            if not tabs:
                return 'table: none for the unnamed enum of %s in\n%s' % (vals[0][0], src)
    for c in tu.cursor.get_children():
        if c.kind.name == 'TYPEDEF_DECL':
            d = c.type.get_canonical().get_declaration()
            vals = [(x.spelling, x.enum_value) for x in d.get_children() if x.kind.name == 'ENUM_CONSTANT_DECL']
            r = table(ns, c.spelling, vals, d.type.get_size())
            if r:
                return 'typedef ' + r + ' in\n' + src
    return None


def table(ns, name, vals, size):
    tab = ns.get(name + '__enumvalues')
    if not isinstance(tab, dict) or set(tab) != {v for _, v in vals}:
        return 'table: %s__enumvalues is %r' % (name, tab)
    for v, n in tab.items():
        if (n, v) not in vals:
            return 'table: %s__enumvalues[%r] is %r' % (name, v, n)
    t = ns.get(name)
    if not isinstance(t, type) or ctypes.sizeof(t) != size:
        return 'size: %s is %r, C has %d bytes' % (name, t, size)
    x = t(-1).value
    if not isinstance(x, int) or isinstance(x, bool) or (x < 0) != any(v < 0 for _, v in vals):
        return 'signed: %s is %r' % (name, t)
    return None
