"""object-like macros"""
from .common import module_of, clang_tu, bad_c, Skip
from .c07 import SUF, CH

RULE = ('random object-like macros (integer, floating, string literals in every notation, negated, parenthesised, aliases, empty) and macros that '
        'cannot be expressed (function-like, unknown identifiers); module constants are compared with the value the generator chose; non-trivial: all cases')
LIMIT = 1500


def num(r):
    if r.random() < .6:
        v = r.choice([r.randint(0, 300), r.randint(0, 2**31 - 1), r.randint(0, 2**63), 0, 1, 7, 8, 10, 2**32, 2**64 - 1, 0xf, 0xff, 0x1f, 0xdeadbeef, 0xe1])
        f = r.choice(['%d', '%d', '0x%x', '0X%X', '0%o', '0x%X'])
        if f == '0%o' and v == 0:
            f = '%d'
        suf = r.choice(SUF)
        if f != '%d' or v < 2**63:
            return f % v + suf, v
        return '%du' % v, v
    v = r.choice([0.5, 1.5, 2.0, 0.25, 1024.0, 3.75, 0.0, 12345.0, 0.1, 1e10, 2.5e-7])
    s = r.choice([repr(v), '%e' % v if float('%e' % v) == v else repr(v), v.hex(), repr(v)])
    if 'e' not in s and 'x' not in s and r.random() < .3:
        s = s.rstrip('0')
        if s.startswith('0') and len(s) > 2 and r.random() < .5:
            s = s[1:]
    return s + r.choice(['', '', 'f', 'F', 'l', 'L']), v


def gen(r):
    out = []
    for i in range(r.randint(1, 6)):
        n = 'M%d' % i
        k = r.random()
        sp = r.choice([' ', ' ', '  ', '\t'])
        if k < .5:
            s, v = num(r)
            neg = r.random()
            if neg < .2:
                s, v = '-' + s, -v
            elif neg < .25:
                s, v = '- ' + s, -v
            p = r.random()
            if p < .2:
                s = '(%s)' % s
            elif p < .25:
                s = '((%s))' % s
            elif p < .3:
                s = '( %s )' % s
            out.append([n, '#define %s%s%s' % (n, sp, s), ['val', v]])
        elif k < .65:
            c = ''.join(r.choice(CH.replace("'", '')) for _ in range(r.randint(0, 9)))
            if '/*' in c or '//' in c:
                c = 'x'
            out.append([n, '#define %s%s%s"%s"' % (n, sp, r.choice(['', '', '', 'L', 'u8', 'u', 'U']), c), ['val', c]])
        elif k < .75 and out:
            m = r.choice(out)
            w = want(out, m[0])
            if w[0] == 'none' and r.random() < .5:
                out.append([n, '#define %s%s%s' % (n, sp, r.choice(['(%s)', '((%s))', '-%s', '%s + 1', '(%s', '(1)-%s']) % m[0]), ['via', m[0]]])
            else:
                out.append([n, '#define %s%s%s' % (n, sp, m[0]), ['same', m[0]]])
        elif k < .82:
            out.append([n, '#define %s' % n, ['empty']])
        elif k < .92:
            out.append([n, '#define %s(%s) %s' % (n, *r.choice([('x', '((x)+1)'), ('', '1'), ('a, b', '(a) * (b)'), ('x', 'x'), ('x', '3'), ('...', '0'), ('x', '((x) & 0xff)')])),
                        ['none']])
        else:
            out.append([n, '#define %s%s%s' % (n, sp, r.choice(['nobody', '-nobody', '- nobody', 'nobody + 1', '(nobody', '1 + nobody', '(1)(nobody', '(nobody)', 'sizeof(nobody)', 'nobody(1)', '(1 + nobody)', 'unknown1 unknown2'])),
                        ['none']])
    for m in out:
        if r.random() < .06:
            # an earlier definition
            m[1] = '#define %s %s\n%s%s' % (m[0], r.choice(['5', '5', '-2.5', '(7)', '"old"', '']), r.choice(['', '#undef %s\n' % m[0]]), m[1])
    return dict(macros=out, comment=r.random() < .3)


def reduce(case):
    for i in range(len(case['macros'])):
        n = case['macros'][i][0]
        yield dict(case, macros=[m for m in case['macros'] if m[0] != n and m[2] not in (['same', n], ['via', n])])


def nontrivial(case):
    return True


def want(ms, n):
    for name, _, w in ms:
        if name == n:
            return want(ms, w[1]) if w[0] == 'same' else ['none'] if w[0] == 'via' else w


def check(case):
    src = ''.join(d + (' /* note */' if case['comment'] else '') + '\n' for _, d, _ in case['macros']) + 'int x;\n'
    if bad_c(clang_tu(src)):
        raise Skip
    ns, txt = module_of(src, macros=True)
    for n, d, w in case['macros']:
        w = want(case['macros'], n)
        has = n in ns
        if w[0] == 'val':
            if not has or ns[n] != w[1] or type(ns[n]) is not type(w[1]):
                return 'value: %s gives %r, wanted %r' % (d, ns.get(n, 'nothing'), w[1])
            if n not in ns['__all__']:
                return 'exported: %s is not in __all__' % n
        elif w[0] == 'empty':
            if has and ns[n] not in (None, True):
                return 'empty: %s gives %r' % (d, ns[n])
        elif has and d.split()[1].startswith(n) and not ref(case, n):
            return 'none: %s gives %r' % (d, ns[n])
    return None


def ref(case, n):
    return False
