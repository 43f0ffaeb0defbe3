"""run-time helpers of generated modules"""
import ctypes
from .common import module_of, clang_tu, bad_c, Skip

RULE = ('random structures with padding, nested records, arrays, strings and callbacks; positional construction, as_dict, get_type, bind and the string casts '
        'of the executed module are compared with the documented behaviour; non-trivial: at least two members')
LIMIT = 1200
T = ['char_', 'short', 'int', 'long', 'unsigned char', 'double', 'float', '_Bool']


def gen(r):
    recs = []
    for k in range(r.randint(1, 3)):
        fs = []
        for i in range(r.randint(1, 6)):
            x = r.random()
            n = r.choice(['m%d' % i, 'PADDINGX%d' % i, 'value%d' % i, 'a_%d' % i, '_x%d' % i, 'with_PADDING_%d' % i, 'PADDING%d' % i, 'x%d_PADDING' % i, 'padding_%d' % i])
            if x < .45:
                fs.append(['sc', r.choice(T[1:]), n])
            elif x < .6:
                fs.append(['arr', r.choice(['int', 'short', 'unsigned char']), n, r.randint(1, 4)])
            elif x < .72 and k:
                fs.append(['rec', 'S%d' % r.randrange(k), n])
            elif x < .82 and k:
                fs.append(['recs', 'S%d' % r.randrange(k), n, r.randint(1, 3)])
            elif x < .87:
                fs.append(['rows', r.choice(['int', 'char', 'double'] + ['struct S%d' % r.randrange(k)] * 2 if k else ['int', 'char']), n, [r.randint(1, 3) for _ in range(r.choice([2, 2, 3]))]])
            elif x < .96:
                fs.append(['fn', r.choice(['int', 'void', 'double']), n, r.randint(0, 3)])
            else:
                fs.append(['ptr', 'int', n])
        recs.append(fs)
    return dict(recs=recs, vals=[r.randint(0, 100) for _ in range(12)], npos=r.randint(0, 6), nbind=r.choice([0, 1, 2, 9]), unknown=r.random() < .3, falsy=r.random() < .3,
                s=r.choice(['', 'abc', 'é ß 中', 'x' * 50, 'a\tb\n']))


def reduce(case):
    R = case.get('recs', [[]])
    if len(R) > 1:
        yield dict(case, recs=R[-1:]) if all(f[0] not in ('rec', 'recs', 'rows') for f in R[-1]) else dict(case, recs=R)
    for j in range(len(R[-1])):
        if len(R[-1]) > 1:
            yield dict(case, recs=R[:-1] + [R[-1][:j] + R[-1][j + 1:]])


def nontrivial(case):
    return 'known' in case or len(case['recs'][-1]) > 1


def source(case):
    out = 'char *use;\n'
    for k, fs in enumerate(case['recs']):
        out += 'struct S%d {\n' % k
        for f in fs:
            if f[0] in ('sc',):
                out += '  %s %s;\n' % (f[1], f[2])
            elif f[0] == 'arr':
                out += '  %s %s[%d];\n' % (f[1], f[2], f[3])
            elif f[0] == 'rec':
                out += '  struct %s %s;\n' % (f[1], f[2])
            elif f[0] == 'recs':
                out += '  struct %s %s[%d];\n' % (f[1], f[2], f[3])
            elif f[0] == 'rows':
                out += '  %s %s%s;\n' % (f[1], f[2], ''.join('[%d]' % n for n in f[3]))
            elif f[0] == 'fn':
                out += '  %s (*%s)(%s);\n' % (f[1], f[2], ', '.join(['int'] * f[3]) or 'void')
            else:
                out += '  %s *%s;\n' % (f[1], f[2])
        out += '};\n'
    return out


def value(f, v, ns, case):
    """(constructor argument, value in as_dict) or None for default"""
    if f[0] == 'sc':
        x = bool(v & 1) if f[1] == '_Bool' else float(v) if f[1] in ('float', 'double') else v
        return x, x
    if f[0] == 'arr':
        t = dict(int=ctypes.c_int32, short=ctypes.c_int16)
        vals = [(v + j) % 200 for j in range(f[3])]
        return vals, vals
    return None


class Falsy:
    """a callback that is false in a condition"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def __len__(self):
        return 0


def nofn(x):
    """without the callbacks"""
    if isinstance(x, dict):
        return {k: nofn(v) for k, v in x.items() if not hasattr(v, 'restype')}
    return [nofn(v) for v in x] if isinstance(x, list) else x


def zero(fs, recs):
    out = {}
    for f in fs:
        if f[0] == 'sc':
            out[f[2]] = 0
        elif f[0] == 'arr':
            out[f[2]] = [0] * f[3]
        elif f[0] == 'rec':
            out[f[2]] = zero(recs[int(f[1][1:])], recs)
        elif f[0] == 'recs':
            out[f[2]] = [zero(recs[int(f[1][1:])], recs)] * f[3]
        elif f[0] == 'rows':
            x = zero(recs[int(f[1][8:])], recs) if f[1][:6] == 'struct' else 0
            n = f[3]
            if f[1] == 'char':
                # (ctypes makes bytes of an array of characters)
                x, n = b'', n[:-1]
            for m in n[::-1]:
                x = [x] * m
            out[f[2]] = x
        elif f[0] == 'ptr':
            out[f[2]] = None
    return out


# see the known finding: an unnamed bit-field has a name in the class
FIXED = [dict(known='bitgap')]


def check(case):
    if case.get('known') == 'bitgap':
        ns, txt = module_of('struct S { int a : 3; int : 5; int b; };')
        o = ns['struct_S'](1, 2)
        return None if (o.a, o.b) == (1, 2) else 'bitgap: S(1, 2) is a=%d, b=%d' % (o.a, o.b)
    src = source(case)
    if bad_c(clang_tu(src)):
        raise Skip
    ns, txt = module_of(src)
    k = len(case['recs']) - 1
    fs = case['recs'][k]
    cls = ns['struct_S%d' % k]
    decl = dict((f[0], f[1]) for f in cls._fields_)
    # positional construction
    args, want = [], zero(fs, case['recs'])
    for i, f in enumerate(fs[:case['npos']]):
        v = value(f, case['vals'][i % 12], ns, case)
        if v is None:
            if f[0] in ('rec', 'recs'):
                args.append(decl[f[2]]())
                continue
            args.append(decl[f[2]]())
        else:
            args.append(decl[f[2]](*v[0]) if f[0] == 'arr' else v[0])
            want[f[2]] = v[1]
    obj = cls(*args)
    for i, f in enumerate(fs[:len(args)]):
        if f[0] == 'sc' and getattr(obj, f[2]) != want[f[2]]:
            return 'positional: %s is %r, wanted %r in\n%s' % (f[2], getattr(obj, f[2]), want[f[2]], src)
    kw = {f[2]: case['vals'][3] for f in fs if f[0] == 'sc' and f[1] == 'int'}
    o2 = cls(**kw)
    if any(getattr(o2, n) != v for n, v in kw.items()):
        return 'keyword: %r in\n%s' % (kw, src)
    # as_dict
    got = cls.as_dict(obj)
    if sorted(got) != sorted(f[2] for f in fs):
        return 'as_dict: keys %s in\n%s' % (sorted(got), src)
    got = nofn(got)
    for n, v in want.items():
        if got[n] != v or (isinstance(v, (dict, list)) and type(got[n]) is not type(v)):
            return 'as_dict: %s is %r, wanted %r in\n%s' % (n, got[n], v, src)
    # get_type
    for f in fs:
        if cls.get_type(f[2]) is not decl[f[2]]:
            return 'get_type: %s in\n%s' % (f[2], src)
    if cls.get_type('no such member') is not None:
        return 'get_type: of an unknown member'
    # bind
    fns = [f for f in fs if f[0] == 'fn']
    calls = []
    bound = {}
    for i, f in enumerate(fns[:case['nbind']]):
        bound[f[2]] = (lambda i, f: lambda *a: calls.append((i, a)) or (None if f[1] == 'void' else i + 7))(i, f)
    if case['falsy']:
        bound = {n: Falsy(f) for n, f in bound.items()}
    extra = {}
    for f in fs:
        if f[0] == 'sc' and f[1] in ('int', 'long') and len(extra) < 1:
            extra[f[2]] = case['vals'][5]
    names = dict(bound, **extra)
    o = cls.bind(dict(names))
    for i, f in enumerate(fns):
        a = list(range(f[3]))
        before = len(calls)
        if not getattr(o, f[2]):
            return 'bind: %s is a null pointer in\n%s' % (f[2], src)
        res = getattr(o, f[2])(*a)
        if f[2] in bound:
            if calls[before:] != [(i, tuple(a))] or (f[1] != 'void' and res != i + 7):
                return 'bind: calling %s gave %r and the calls %r in\n%s' % (f[2], res, calls[before:], src)
        elif len(calls) != before:
            return 'bind: %s calls another callback' % f[2]
    for n, v in extra.items():
        if getattr(o, n) != v:
            return 'bind: member %s is %r in\n%s' % (n, getattr(o, n), src)
    if case['unknown']:
        try:
            cls.bind(dict(names, no_such_member=lambda *a: 0))
        except ValueError:
            pass
        else:
            return 'bind: an unknown name is accepted in\n%s' % src
    # strings
    if 'string_cast' not in ns:
        return 'string_cast: is missing for\n%s' % src
    for e in ('utf-8', 'utf-16-le') if not case['s'] or ord(max(case['s'])) > 255 and False else ('utf-8',):
        if ns['string_cast'](ns['char_pointer_cast'](case['s'], e), e) != case['s']:
            return 'string_cast: %r' % case['s']
    if case['s'] and ns['string_cast'](ns['char_pointer_cast'](case['s'].encode('utf-8')), None) != case['s'].encode('utf-8'):
        return 'string_cast: bytes %r' % case['s']
    return None
