"""initialised variables"""
from .common import module_of, clang_tu, bad_c, Skip

RULE = ('random variables of integer, floating, character pointer and flat array types with plain literals in every notation; the '
        'module variable is compared with the value the generator chose; non-trivial: all cases')
LIMIT = 1500
INTS = {'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1),
        'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1),
        'unsigned long long': (0, 2**64 - 1)}
SUF = ['', '', '', 'u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'LU', 'll', 'LL', 'ull', 'ULL', 'llu', 'LLU', 'Ul', 'uLL']

NAMED = {'int': 'my_int', 'unsigned long': 'my_size', 'short': 'my_int16', 'unsigned char': 'my_byte'}
PRE = 'typedef int my_int;\ntypedef unsigned long my_size;\ntypedef short my_int16;\ntypedef unsigned char my_byte;\ntypedef double my_float;\n'


def intlit(r, lo, hi):
    v = r.choice([r.randint(0, min(hi, 300)), r.randint(0, hi), hi, 0, 1, 7, 8])
    v = min(v, hi)
    neg = lo < 0 and r.random() < .3 and v <= 2**31 - 1
    f = r.choice(['%d', '%d', '0x%x', '0X%X', '0%o', '0x%X'])
    if f == '0%o' and v == 0:
        f = '%d'
    s = f % v + r.choice(SUF)
    if neg:
        s = f % v + r.choice(['', '', 'l', 'L', 'll', 'LL'])
        return '-' + s, -v
    return s, v


def fltlit(r):
    v = r.choice([0.5, 1.5, 2.0, 0.25, 1024.0, 3.75, 1e3, 0.0, 12345.0, 2.0 ** -10, 2.0 ** 40])
    s = r.choice([repr(v), '%e' % v if float('%e' % v) == v else repr(v), v.hex(), repr(v).rstrip('0') if 'e' not in repr(v) else repr(v)])
    if s.endswith('.') and r.random() < .5:
        s += '0'
    if s in ('', '.'):
        s = '0.'
    s += r.choice(['', '', 'f', 'F', 'l', 'L'])
    if r.random() < .25:
        return '-' + s, -v
    return s, v


CH = 'abcXYZ 019_-+*/;:,.()[]{}<>=!&|^~@$#\'éß'


def string(r):
    return ''.join(r.choice(CH) for _ in range(r.randint(0, 9)))


def gen(r):
    out = []
    for i in range(r.randint(1, 5)):
        k = r.random()
        q = r.choice(['', '', 'static ', 'const ', 'volatile ', 'extern '])
        if k < .45:
            t = r.choice(sorted(INTS))
            s, v = intlit(r, *INTS[t])
            if r.random() < .15:
                # the same type under another name
                t, = [t] if t not in NAMED else [NAMED[t]]
            out.append(['%s%s v%d = %s;' % (q, t, i, s), v])
            if r.random() < .15:
                # more than one variable in the declaration
                s, w = intlit(r, 0, min(100, v if v > 0 else 100))
                out[-1] = ['%s%s w%d = %s, v%d = %s;' % (q, t, i, s, i, out[-1][0].split('= ')[1].rstrip(';')), v]
        elif k < .6:
            s, v = fltlit(r) if r.random() < .7 else intlit(r, -100, 100)
            out.append(['%s%s v%d = %s;' % (q, r.choice(['float', 'double', 'long double', 'my_float']), i, s), v])
        elif k < .72:
            s = string(r)
            out.append([r.choice(['char *v%d = "%s";', 'const char *v%d = "%s";', 'char v%d[] = "%s";', 'char v%d[40] = "%s";']) % (i, s), s])
        elif k < .9:
            n = r.randint(1, 6)
            if r.random() < .75:
                t = r.choice([x for x in sorted(INTS) if 'char' not in x])
                vs = [intlit(r, *INTS[t]) for _ in range(n)]
            else:
                t = r.choice(['float', 'double'])
                vs = [fltlit(r) if r.random() < .7 else intlit(r, -100, 100) for _ in range(n)]
            d = r.choice(['', str(n), str(n + 2)])
            out.append(['%s%s v%d[%s] = {%s};' % (q, t, i, d, ', '.join(a for a, _ in vs) + r.choice(['', '', ',', ' /* the end */'])), [b for _, b in vs]])
        else:
            t = r.choice([x for x in sorted(INTS) if x != 'unsigned char'] + ['float', 'double'])
            out.append(['%s v%d;' % (t, i), 0])
    for x in out:
        if r.random() < .2 and not x[0].startswith(('static', 'extern')) and ', v' not in x[0]:
            # declared before, in another header say
            x[0] = 'extern %s; ' % x[0].split(' =')[0].rstrip(';') + x[0]
    return dict(vars=out)


def reduce(case):
    for i in range(len(case['vars'])):
        yield dict(vars=case['vars'][:i] + case['vars'][i + 1:])


def nontrivial(case):
    return True


def check(case):
    src = PRE + '\n'.join(d for d, _ in case['vars']) + '\n'
    if bad_c(clang_tu(src, suffix='.c')):
        raise Skip
    ns, txt = module_of(src, suffix='.c')
    import re
    for d, v in case['vars']:
        n = re.search(r'\bv\d+\b', d).group(0)
        got = ns.get(n, 'nothing')
        if got != v or (isinstance(v, (str, list)) and type(got) is not type(v)) or n not in ns['__all__']:
            return 'value: %s gives %s = %r' % (d, n, got)
    return None
