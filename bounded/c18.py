"""command line options"""
import contextlib
import io
import os
import re
import shutil
import subprocess
import tempfile
from .common import real, Skip

RULE = ('random command lines in random option order; the module written by the tool is compared with the one the programming interface makes from a '
        'configuration filled in from the documented meaning of the options; non-trivial: at least two options')
LIMIT = 500
SRC = '''#include "inc.h"
/// about the record
struct S { char a; /**< first */ long b; void *p; };
union U { int a; double b; };
/** an enum */
enum E { EA, EB = 4 };
typedef struct S T;
typedef enum E TE;
/// a function
int foo(struct S *s, int n);
int libfn(void);
int twice(void);
#define M1 12
#define M2 "text"
#ifdef X
struct only_with_x { int x; };
#endif
#ifdef Y
#if Y == 7
int y_is_7;
#endif
#endif
#ifdef Z
int only_with_z;
#endif
int var = 5;
'''
INC = 'struct I { short s; };\nint incfn(struct I *i);\nextern int incvar;\n'
OPTS = ['comments', 'doc', 'locations', 'kind', 'includes', 'lib', 'nm', 'output', 'preload', 'regex', 'symbol', 'target', 'verbose', 'clang', 'module', 'quiet', 'two']


def gen(r):
    o = {}
    for k in OPTS:
        if r.random() < .3:
            o[k] = dict(comments=True, doc=True, locations=True, kind=''.join(x for x in 'acdefmstu' if r.random() < .6), includes=True,
                        lib=r.choice([['a'], ['b'], ['a', 'b'], ['b', 'a']]), nm=True, output=True, preload=r.choice(['path', 'name', 'both', 'both']),
                        regex=r.sample(['S', '^foo$', 'E', 'struct_.*', 'only', 'M\\d', 'v+'], r.randint(1, 3)),
                        symbol=r.sample(['struct_S', 'foo', 'E', 'T', 'var', 'M1', 'y_is_7', 'twice'], r.randint(1, 3)),
                        target=r.choice(['i386-pc-linux-gnu', 'x86_64-w64-mingw32', 'arm-linux-gnueabi']), verbose=True,
                        clang=r.choice(['-DX', '-DX -DY=7', '-DY=7  -DZ', '-DY=5 -UY -DY=7', '-DX -UX', '-std=c99', '-DX -DX', '-DX -DY=7 -DX', '-DZ -DX -UZ -DZ']), module=['colorsys'], quiet=True, two=True)[k]
    order = sorted(o)
    r.shuffle(order)
    return dict(opts=o, order=order, long=r.random() < .4, pos=r.random() < .5)


def reduce(case):
    for k in case['order']:
        yield dict(case, order=[x for x in case['order'] if x != k], opts={x: v for x, v in case['opts'].items() if x != k})


def nontrivial(case):
    return len(case['order']) > 1


FIXED = [dict(opts={}, order=[], long=False, pos=False)]
NAMES = dict(comments=('-c', '--comments'), doc=('-d', '--doc'), locations=('-e', '--show-definition-location'), kind=('-k', '--kind'), includes=('-i', '--includes'),
             lib=('-l', '--include-library'), nm=('--nm', '--nm'), output=('-o', '--output'), preload=('-p', '--preload'), regex=('-r', '--regex'), symbol=('-s', '--symbol'),
             target=('-t', '--target'), verbose=('-v', '--verbose'), module=('-m', '--module'), quiet=('-q', '--quiet'), clang=('--clang-args', '--clang-args'))


def check(case):
    codegenerator, config, typedesc = real()
    from ctypeslib import clang2py
    from ctypeslib.library import Library
    d = tempfile.mkdtemp(prefix='vb18')
    try:
        o = case['opts']
        for n, t in (('in.h', SRC), ('inc.h', INC), ('two.h', 'int second;\n')):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        libs = {}
        if 'lib' in o or 'preload' in o:
            for k, fns in (('a', 'int libfn(void) { return 1; } int twice(void) { return 1; }'), ('b', 'int twice(void) { return 2; }')):
                libs[k] = os.path.join(d, 'lib%s.so' % k)
                s = os.path.join(d, k + '.c')
                with open(s, 'w') as f:
                    f.write(fns)
                subprocess.run(['gcc', '-shared', '-fPIC', '-o', libs[k], s], check=True)
        pre = {None: [], 'path': [libs.get('b')], 'name': ['libm.so.6'], 'both': ['libm.so.6', libs.get('b')]}[o.get('preload')]
        nm = os.path.join(d, 'nm')
        with open(nm, 'w') as f:
            f.write('#!/bin/sh\necho "0000000000001000 T foo"\n')
        os.chmod(nm, 0o755)
        out = os.path.join(d, 'out.py')
        args = []
        for k in case['order']:
            if k == 'two':
                continue
            n = NAMES[k][case['long']]
            v = {'lib': [libs[x] for x in o['lib']] if k == 'lib' else None, 'nm': [nm], 'output': [out], 'preload': pre}.get(k)
            if v is None:
                v = o[k] if isinstance(o[k], list) else [o[k]] if isinstance(o[k], str) else None
            if v is None:
                args.append(n)
            else:
                for x in v:
                    args.extend(['%s=%s' % (n, x)] if k == 'clang' or case['long'] else [n, x])
        files = [os.path.join(d, 'in.h')] + ([os.path.join(d, 'two.h')] if 'two' in o else [])
        argv = files + args if case['pos'] else args + ['--'] + files
        so, se = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            rc = clang2py.main(argv)
        if rc:
            return 'status: %r for %s' % (rc, argv)
        if 'output' in o:
            if so.getvalue():
                return 'output: -o given, but standard output gets %r' % so.getvalue()[:100]
            with open(out) as f:
                got = f.read()
        else:
            got = so.getvalue()
            if os.path.exists(out):
                return 'output: no -o, but a file is written'
        # the documented meaning, through the programming interface
        cfg = config.CodegenConfig()
        cfg.generate_comments = 'comments' in o
        cfg.generate_docstrings = 'doc' in o
        cfg.generate_locations = 'locations' in o
        cfg.filter_location = 'includes' not in o
        table = dict(a=typedesc.Alias, c=typedesc.Structure, d=typedesc.Variable, e=typedesc.Enumeration, f=typedesc.Function, m=typedesc.Macro,
                     s=typedesc.Structure, t=typedesc.Typedef, u=typedesc.Union)
        cfg.types = [table[x] for x in o.get('kind', 'cdefstu')]
        cfg.symbols = o.get('symbol', [])
        cfg.expressions = [re.compile(x) for x in o.get('regex', [])]
        cfg.searched_dlls = [Library(libs[x], nm=nm if 'nm' in o else 'nm') for x in o.get('lib', [])]
        cfg.preloaded_dlls = pre
        cfg.clang_opts = (['-target', o['target']] if 'target' in o else []) + o.get('clang', '').split()
        cfg.verbose = 'verbose' in o
        w = io.StringIO()
        we = io.StringIO()
        with contextlib.redirect_stderr(we):
            codegenerator.translate_files(files, w, cfg)
        want = w.getvalue()
        if 'comments' in o:
            # a heading of comment lines
            lines = got.splitlines(True)
            n = 0
            while n < len(lines) and ''.join(lines[n:]) != want and lines[n].startswith('#'):
                n += 1
            got = ''.join(lines[n:])
        if got != want:
            diff = [(x, y) for x, y in zip(got.splitlines(), want.splitlines()) if x != y][:3] or [got[-80:], want[-80:]]
            return 'module: %s gives, wanted: %s' % (argv, diff)
        st = se.getvalue()
        if ('Symbols defined' in st) != ('verbose' in o):
            return 'verbose: statistics %s for %s' % ('Symbols defined' in st, argv)
        return None
    finally:
        shutil.rmtree(d)
