"""record layouts"""
import ctypes
from .common import module_of, clang_tu, bad_c, Skip

RULE = ('random sets of C records without bit-fields (nested, anonymous, packed, aligned, arrays, pointers, enums, flexible arrays, '
        'empty), on the host or another target; size of every generated class and offset and width of every member are compared '
        'with clang\'s layout; non-trivial: at least two members')
LIMIT = 1500
FT = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long',
      'unsigned long long', 'float', 'double', '_Bool', 'long double', 'void*', 'int*', 'char*', 'FN', 'enum E', 'T1', 'struct U*',
      '__int128']
TARGETS = [None] * 6 + ['i386-pc-linux-gnu', 'x86_64-pc-linux-gnu', 'i686-w64-mingw32', 'aarch64-linux-gnu', 'arm-linux-gnueabi']


def field(r, i, structs):
    k = r.random()
    al = '' if r.random() < .9 else ' __attribute__((aligned(%d)))' % r.choice([1, 2, 4, 8, 16, 32, 64, 128])
    if r.random() < .04:
        al = ' __attribute__((packed))'
    if k < 0.7 or not structs:
        t = r.choice(FT)
        if t == 'FN':
            return 'int (*f%d)(int, char*)%s;' % (i, al)
        if r.random() < 0.25:
            return '%s f%d[%d]%s;' % (t, i, r.randint(1, 5), al)
        if r.random() < 0.08:
            return '%s f%d[%d][%d]%s;' % (t, i, r.randint(1, 3), r.randint(1, 4), al)
        return '%s f%d%s;' % (t, i, al)
    s = r.choice(structs)
    x = r.random()
    if x < .3:
        return '%s *f%d%s;' % (s, i, al)
    if x < .5:
        return '%s f%d[%d]%s;' % (s, i, r.randint(1, 3), al)
    if x < .6:
        return 'struct { char a%d; int b%d; };' % (i, i)
    if x < .7:
        return 'union { char a%d; int b%d[3]; };' % (i, i)
    if x < .75:
        return 'struct { char c%d; union { short d%d; long e%d; }; char g%d; };' % (i, i, i, i)
    if x < .85:
        return 'struct { char a; short b; } f%d%s;' % (i, al)
    if x < .9:
        return 'struct Z%d { char a; double b; } f%d%s;' % (r.randint(0, 10**6), i, al)
    return '%s f%d%s;' % (s, i, al)


def gen(r):
    structs, recs = [], []
    scheme = r.choice(['S%d', 'S%d', 'pkt_S%d', 'a_b_S%d', 'my_struct_S%d', 'x_union_S%d', 'S%d__y', '_S%d', '__S%d'])
    for n in range(r.randint(1, 4)):
        # a tag may be what an unnamed record of another record is called in the module
        tag = scheme % n
        unnamed = [rc[1] + '_f%d' % i for rc in recs for i, f in enumerate(rc[2]) if f.startswith('struct { char a; short b; }')]
        unnamed += [rc[1] + '_%d' % j for rc in recs for j in range(2) if any('{' in f for f in rc[2])]
        if unnamed and r.random() < .4:
            tag = r.choice(unnamed)
            tag += 'x' * sum(rc[1].rstrip('x') == tag for rc in recs)
        kw = r.choice(['struct', 'struct', 'struct', 'union'])
        fs = [field(r, i, structs) for i in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7]))]
        if kw == 'struct' and fs and r.random() < .06:
            fs.append(r.choice(['int', 'char', 'long', 'void*']) + ' flex[%s];' % r.choice(['', '0']))
            at = ''
            recs.append([kw, 'X' + tag, fs, at])
            continue
        at = r.choice(['', '', '', '', '__attribute__((packed))', '__attribute__((aligned(16)))', '__attribute__((packed, aligned(4)))'])
        recs.append([kw, tag, fs, at])
        structs.append('%s %s' % (kw, tag))
    if r.random() < .2:
        recs[0][0] = 'struct'
        recs.insert(0, ['struct', recs[0][1] + r.choice(['_f0', '_f1', '_f2', '_0', '_1']), ['int q;'], ''])
        if len(set(rc[1] for rc in recs)) < len(recs):
            del recs[0]
    return dict(recs=recs, pack=r.choice([0] * 8 + [1, 2, 4]), target=r.choice(TARGETS))


def source(case):
    out = ['enum E { EA, EB };', 'typedef unsigned short T1;']
    if case['pack']:
        out.append('#pragma pack(%d)' % case['pack'])
    for kw, n, fs, at in case['recs']:
        out.append('%s %s { %s } %s;' % (kw, n, ' '.join(fs), at))
    return '\n'.join(out) + '\n'


def reduce(case):
    for i in range(len(case['recs'])):
        yield dict(case, recs=case['recs'][:i] + case['recs'][i + 1:])
    for i, (kw, n, fs, at) in enumerate(case['recs']):
        for j in range(len(fs)):
            yield dict(case, recs=case['recs'][:i] + [[kw, n, fs[:j] + fs[j + 1:], at]] + case['recs'][i + 1:])


def nontrivial(case):
    return sum(len(x[2]) for x in case['recs']) > 1


def records(cur):
    from clang.cindex import CursorKind
    for c in cur.get_children():
        if c.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL):
            yield c


def pyname(c):
    from clang.cindex import CursorKind
    return ('struct_' if c.kind == CursorKind.STRUCT_DECL else 'union_') + c.spelling


def prepared(case):
    src = source(case)
    opts = ['-target', case['target']] if case['target'] else []
    if case['target'] and '__int128' in src:
        raise Skip
    if case['target'] and not case.get('crossfn') and '(*f' in src and not case['target'].startswith(('x86_64', 'aarch64')):
        raise Skip  # see the known finding crossfn
    tu = clang_tu(src, opts)
    if bad_c(tu):
        raise Skip
    ns, txt = module_of(src, opts=opts)
    return src, tu, ns, txt


FIXED = [dict(recs=[['struct', 'S0', ['int (*f0)(int, char*);'], '']], pack=0, target='i386-pc-linux-gnu', crossfn=1)]


def check(case):
    r = check1(case)
    return 'crossfn: ' + r if r and case.get('crossfn') else r


def check1(case):
    src, tu, ns, txt = prepared(case)
    for c in records(tu.cursor):
        if not c.is_definition():
            continue
        cls = ns.get(pyname(c))
        if cls is None:
            return 'missing: %s is not generated for\n%s' % (pyname(c), src)
        if ctypes.sizeof(cls) != c.type.get_size():
            return 'size: sizeof(%s) is %d, C says %d for\n%s' % (pyname(c), ctypes.sizeof(cls), c.type.get_size(), src)
        r = layout(cls, c, src)
        if r:
            return r
    return None


def layout(cls, c, src):
    for f in c.type.get_fields():
        if not f.spelling or '(' in f.spelling:
            r = inner(cls, f, f.get_field_offsetof(), src)
            if r:
                return r
            continue
        r = one(cls, f.spelling, f.get_field_offsetof(), f, src)
        if r:
            return r
    return None


def one(cls, name, bits, f, src):
    d = getattr(cls, name, None)
    if d is None:
        return 'member: %s.%s does not exist for\n%s' % (cls.__name__, name, src)
    if d.offset * 8 != bits:
        return 'offset: %s.%s is at byte %d, C says %d for\n%s' % (cls.__name__, name, d.offset, bits // 8, src)
    want = max(f.type.get_size(), 0)
    if d.size != want:
        return 'width: %s.%s has %d bytes, C says %d for\n%s' % (cls.__name__, name, d.size, want, src)
    return None


def inner(cls, f, base, src):
    """members of an unnamed record are members of the enclosing class"""
    for g in f.type.get_fields():
        off = base + g.get_field_offsetof()
        if not g.spelling or '(' in g.spelling:
            r = inner(cls, g, off, src)
        else:
            r = one(cls, g.spelling, off, g, src)
        if r:
            return r
    return None
