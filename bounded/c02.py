"""field lists of records"""
import ctypes
import re
from . import c01
from .common import match, Skip

RULE = ('random sets of C records, some with bit-fields, on the host; the names of _fields_ without PADDING_<n> are compared with the '
        'declared members, in order, their types with the C types, and members of unnamed records are looked up on the outer '
        'class; non-trivial: at least two members')
LIMIT = 1500
reduce, nontrivial = c01.reduce, c01.nontrivial


def gen(r):
    case = dict(c01.gen(r), target=None)
    if r.random() < .3:
        for i in range(r.randint(1, 4)):
            fs = r.choice(case['recs'])[2]
            if not any('flex' in f for f in fs):
                fs.insert(r.randint(0, len(fs)), bitfield(r, 'b%d' % i))
    return case


BITS = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'T1': 16, 'int': 32, 'unsigned': 32, 'enum E': 32, '_Bool': 1, 'long': 64,
        'unsigned long': 64, '__int128': 64}


def bitfield(r, name):
    t = r.choice(sorted(BITS))
    if r.random() < .07:
        return '%s : 0;' % t
    if r.random() < .1:
        name = ''
    return '%s %s : %d;' % (t, name, r.randint(1, BITS[t]))


def anon(f):
    return not f.spelling or '(' in f.spelling


# see the known finding: what an unnamed record is called is also a C name
FIXED = [dict(recs=[['struct', 'S', ['int _0;', 'struct { int a; };'], '']], pack=0, target=None, known='underscore')]


def check(case):
    r = check1(case)
    return '%s: %s' % (case['known'], r) if r and case.get('known') else r


def check1(case):
    src, tu, ns, txt = c01.prepared(case)
    for c in c01.records(tu.cursor):
        if not c.is_definition():
            continue
        cls = ns.get(c01.pyname(c))
        if cls is None:
            return 'missing: %s\n%s' % (c01.pyname(c), src)
        r = fields(cls, c.type, ns)
        if r:
            return r + '\n' + src
    return None


def bits(f, c):
    n = c.get_bitfield_width() if c.is_bitfield() else c.type.get_size() * 8
    return f[2] != n or not c.is_bitfield() and n != 8 or c.type.get_canonical().kind.name in ('RECORD', 'CONSTANTARRAY')


def fields(cls, ct, ns):
    got = [f for f in getattr(cls, '_fields_', []) if not re.match(r'PADDING_\d+$', f[0]) and not (len(f) == 3 and re.match(r'_\d+$', f[0]))]
    want = [w for w in ct.get_fields() if w.spelling or not w.is_bitfield()]
    if len(got) != len(want):
        return 'names: %s has %s, C has %s' % (cls.__name__, [g[0] for g in got], [w.spelling for w in want])
    if len({g[0] for g in got}) < len(got):
        return 'names: %s has %s, C has %s' % (cls.__name__, [g[0] for g in got], [w.spelling for w in want])
    an = getattr(cls, '_anonymous_', ())
    for g, w in zip(got, want):
        if anon(w):
            if g[0] not in an:
                return 'anonymous: %s of %s is not in _anonymous_' % (g[0], cls.__name__)
            for x in w.type.get_fields():
                if not anon(x) and not hasattr(cls, x.spelling):
                    return 'anonymous: %s is not reachable on %s' % (x.spelling, cls.__name__)
        elif g[0] != w.spelling:
            return 'names: %s has %s, C has %s' % (cls.__name__, [x[0] for x in got], [x.spelling for x in want])
        # the type of a bit-field, or of a character in the unit of one, is that of the unit: an integer type
        m = match(g[1], w.type, ns) if len(g) == 2 else 'bits' * bits(g, w)
        if m:
            return 'type: %s.%s: %s' % (cls.__name__, g[0], m)
        d = w.type.get_canonical().get_declaration()
        if w.type.get_canonical().kind.name == 'RECORD' and (not d.spelling or '(' in d.spelling):
            r = fields(g[1], w.type.get_canonical(), ns)
            if r:
                return r
    return None
