"""functions are bound to the library that exports them"""
import os
import re
import shutil
import stat
import subprocess
import tempfile
from .common import real, Skip, clang_tu

RULE = ('(a) random nm listings through a stand-in nm program: the offered names are compared with the T, D, R, G and S lines; (b) random sets of shared '
        'libraries built with gcc (same symbol in several, same file name in several directories), each returning its own number: the generated functions '
        'are called and the number compared with the first given library that defines the function; non-trivial: all cases')
LIMIT = 300
NAMES = ['f', 'g', 'h', 'foo', 'foo_bar', '_init', 'data', 'x1', 'F', 'ff']


def gen(r):
    if r.random() < .5:
        lines = []
        for _ in range(r.randint(0, 8)):
            n = r.choice(NAMES) + r.choice(['', '', '', '@@V1.0', '@V0.9', '@@LIB_2', '.cold'])
            lines.append([r.choice(['%016x' % r.randint(0, 2**40), '%08x' % r.randint(0, 2**30)]), r.choice('TTTTDRGSBbtdrWwVUiuA'), n])
        return dict(kind='nm', lines=lines, tail=r.choice(['\n', '']))
    dirs = r.choice([1, 1, 2, 3])
    libs = []
    for k in range(r.randint(1, 3)):
        libs.append([r.randint(0, dirs - 1), r.choice(['liba.so', 'libb.so', 'libc%d.so' % k, 'a.b-c.so']),
                     sorted(r.sample(['f', 'g', 'h', 'foo'], r.randint(0, 4)))])
    return dict(kind='so', libs=libs, uses=sorted(r.sample(['f', 'g', 'h', 'foo', 'absent'], r.randint(1, 5))), api=r.random() < .5)


def reduce(case):
    k = 'lines' if case['kind'] == 'nm' else 'libs'
    for i in range(len(case[k])):
        yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    if case['kind'] == 'so':
        for i in range(len(case['uses'])):
            yield dict(case, uses=case['uses'][:i] + case['uses'][i + 1:])


def nontrivial(case):
    return True


def check(case):
    d = tempfile.mkdtemp(prefix='vb14')
    try:
        return (nm if case['kind'] == 'nm' else so)(case, d)
    finally:
        shutil.rmtree(d)


def nm(case, d):
    real()
    from ctypeslib.library import Library
    prog = os.path.join(d, 'nm')
    out = os.path.join(d, 'out')
    so_ = os.path.join(d, 'lib.so')
    open(so_, 'w').close()
    with open(out, 'w') as f:
        f.write('\n'.join(' '.join(x) for x in case['lines']) + (case['tail'] if case['lines'] else ''))
    with open(prog, 'w') as f:
        f.write('#!/bin/sh\ncat %s\n' % out)
    os.chmod(prog, 0o755)
    lib = Library(so_, nm=prog)
    want = {n.split('@@')[0] for _, k, n in case['lines'] if k in 'TDRGS'}
    for n in sorted({x for _, _, y in case['lines'] for x in (y, y.split('@')[0])} | set(NAMES)):
        if n.startswith('__'):
            continue
        try:
            getattr(lib, n)
            has = True
        except AttributeError:
            has = False
        if has != (n in want):
            return 'offered: %s is %soffered for the listing %s' % (n, '' if has else 'not ', case['lines'])
    return None


def so(case, d):
    codegenerator, config, typedesc = real()
    from ctypeslib.library import Library
    paths, num = [], {}
    for k, (dn, name, fns) in enumerate(case['libs']):
        p = os.path.join(d, 'd%d' % dn, name)
        if p in paths:
            raise Skip
        os.makedirs(os.path.dirname(p), exist_ok=True)
        src = os.path.join(d, 's%d.c' % k)
        with open(src, 'w') as f:
            for j, n in enumerate(fns):
                f.write('int %s(void) { return %d; }\n' % (n, 100 * k + j + 1))
                num[k, n] = 100 * k + j + 1
        subprocess.run(['gcc', '-shared', '-fPIC', '-o', p, src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        paths.append(p)
    cfg = config.CodegenConfig()
    cfg.searched_dlls = [Library(p, nm='nm') for p in paths]
    import io
    o = io.StringIO()
    t = codegenerator.CodeTranslator(cfg)
    t.preload_dlls()
    t.parse_input_string(''.join('int %s(void);\n' % n for n in case['uses']))
    t.generate_code(o)
    txt = o.getvalue()
    ns = {}
    exec(txt, ns)
    for n in case['uses']:
        owner = next((k for k, (_, _, fns) in enumerate(case['libs']) if n in fns), None)
        f = ns.get(n)
        if owner is None:
            if 'FIXME_STUB' not in next(x for x in txt.splitlines() if x.startswith('    %s = ' % n)):
                return 'stub: %s, which no library offers, is loaded by %s' % (n, txt)
            continue
        if f is None or getattr(f, '_name', getattr(f, '__name__', None)) is None:
            return 'missing: %s' % n
        got = f()
        if got != num[owner, n]:
            return 'wrong: %s() gives %s, the first library offering it gives %s; libraries %s' % (n, got, num[owner, n], case['libs'])
    opened = re.findall(r"= ?(?:FunctionFactoryStub\(\) #)? *ctypes\.CDLL\('([^']*)'", txt)
    for p in opened:
        if p != 'FIXME_STUB' and p not in paths:
            return 'path: %s is opened, given were %s' % (p, paths)
        if opened.count(p) > 1:
            return 'twice: %s is opened more than once' % p
    return None
