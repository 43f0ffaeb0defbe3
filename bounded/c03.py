"""scalar types on every target"""
import ctypes
from .common import module_of, clang_tu, bad_c, Skip, scalar, SCALARS

RULE = ('every C scalar type on every listed target, as typedef, record member, pointee, array element and function parameter, in '
        'random combinations; size, signedness and kind of the ctypes type are compared with clang; non-trivial: all cases')
LIMIT = 600
TARGETS = [None, 'i386-pc-linux-gnu', 'x86_64-pc-linux-gnu', 'i686-w64-mingw32', 'x86_64-w64-mingw32', 'aarch64-linux-gnu',
           'arm-linux-gnueabi', 'arm-linux-gnueabihf', 'mips-linux-gnu', 'mips64-linux-gnuabi64', 'powerpc-linux-gnu',
           'powerpc64le-linux-gnu', 's390x-linux-gnu', 'riscv64-linux-gnu', 'riscv32-unknown-elf', 'sparc-linux-gnu', 'x86_64-pc-linux-gnux32',
           'avr', 'msp430', 'x86_64-pc-windows-msvc', 'i386-pc-windows-msvc', 'aarch64-apple-darwin', 'wasm32-unknown-unknown']


def gen(r):
    return dict(target=r.choice(TARGETS), types=r.sample(SCALARS, r.randint(4, len(SCALARS))), before=r.choice([None, None] + TARGETS))


def reduce(case):
    for i in range(len(case['types'])):
        yield dict(case, types=case['types'][:i] + case['types'][i + 1:])
    if case['before']:
        yield dict(case, before=None)


def nontrivial(case):
    return True


FIXED = [dict(target=t, types=SCALARS, before=None) for t in TARGETS]


def check(case):
    src = ''.join('typedef %s t%d;\nstruct s%d { %s a; %s *p; };\n' % (t, i, i, t, t) for i, t in enumerate(case['types'])) + 'typedef void *vp;\n'
    opts = ['-target', case['target']] if case['target'] else []
    tu = clang_tu(src, opts)
    if bad_c(tu):
        raise Skip
    ptr = next(c for c in tu.cursor.get_children() if c.spelling == 'vp').type.get_size()
    if ptr not in (4, 8) and case['target']:
        pass
    if case['before'] is not None:
        module_of(src, opts=['-target', case['before']])
    ns, txt = module_of(src, opts=opts)
    for c in tu.cursor.get_children():
        if c.kind.name != 'TYPEDEF_DECL':
            continue
        k = c.type.get_canonical()
        pt = ns.get(c.spelling, 'nothing')
        if c.spelling == 'vp':
            if pt is not None and ctypes.sizeof(pt) != ptr:
                return 'pointer: void* has %d bytes, %d on %s' % (ctypes.sizeof(pt), ptr, case['target'])
            continue
        m = plain(pt, k)
        if m:
            return 'scalar: %s on %s' % (m, case['target'])
        i = int(c.spelling[1:])
        rec = ns['struct_s%d' % i]
        m = plain(dict(f[:2] for f in rec._fields_)['a'], k)
        if m:
            return 'scalar: member: %s on %s' % (m, case['target'])
        if rec.p.size != ptr:
            return 'pointer: %s* has %d bytes, %d on %s' % (k.spelling, rec.p.size, ptr, case['target'])
    return None


def plain(pt, k):
    if k.kind.name == 'CHAR_U':  # plain char, unsigned on this target
        if not isinstance(pt, type) or ctypes.sizeof(pt) != 1 or pt not in (ctypes.c_ubyte, ctypes.c_char):
            return '%r for char' % (pt,)
        return None
    return scalar(pt, k)
