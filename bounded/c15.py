"""invalid C is reported"""
import contextlib
import io
import os
import re
import shutil
import tempfile
from . import progs
from .common import real, Skip

RULE = ('random valid programs with random damage (deleted, duplicated, swapped characters and tokens, unknown types, missing includes, #error, #warning, '
        'redefinitions), in the source file or in a file it includes, through the API and the command line tool; an exception or non-zero status is wanted exactly when clang reports an error or fatal '
        'diagnostic; non-trivial: clang has at least one diagnostic')
LIMIT = 500
ADD = ['#error no', '#warning careful', '#include "nothere.h"', 'unknown_t q;', 'int a[-1];', 'struct S { struct S x; };', 'int 3x;', 'int y = ;', 'int y = "a";',
       'enum { A = 1, A = 2 };', 'int z = nobody;', 'int f(void) { return nobody; }', 'static int g(void);', 'int w = 1 / 0;', 'char c = 300;', '#if', '#endif',
       'typedef int T; typedef char T;', 'int u(int); char u(int);', '@', '}', '_Static_assert(0, "x");', '_Static_assert(1, "x");', 'extern int v; extern char v;',
       '#pragma unknown thing', 'int *p = 5;', 'struct fwd; struct fwd o;', 'void f(void v);', 'int main() { return; }', '#define A 1\n#define A 2', 'int f(a) int a; { return a; }',
       'goto x;', 'int vla[nobody];', 'inline', '__attribute__((nosuch)) int k;', 'register int r;', 'void v;', 'unsigned float f;', 'long long long q;']


def gen(r):
    ds = progs.program(r, r.randint(0, 5))
    lines = progs.text(ds).splitlines() if ds else []
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        k = r.random()
        if k < .6 or not lines:
            lines.insert(r.randint(0, len(lines)), r.choice(ADD))
            continue
        i = r.randrange(len(lines))
        s = lines[i]
        toks = re.findall(r'\w+|\S|\s+', s)
        j = r.randrange(len(toks))
        if k < .75:
            del toks[j]
        elif k < .85:
            toks.insert(j, toks[j])
        else:
            l = r.randrange(len(toks))
            toks[j], toks[l] = toks[l], toks[j]
        lines[i] = ''.join(toks)
    if r.random() < .05:
        # many warnings, or many errors, before the others
        lines[:0] = ['%s w%d = %s;' % (('char', j, '300') if r.random() < .95 else ('nothing', j, '1')) for j in range(r.choice([30, 101, 260]))]
    return dict(lines=lines, how=r.choice(['file', 'files', 'string', 'cli', 'cli', 'two', 'inc', 'inc', 'deep', 'cliinc']), opts=r.choice([[], [], [], ['-Wall'], ['-Werror'], ['-DX'], ['-w']]))


def reduce(case):
    for i in range(len(case['lines'])):
        yield dict(case, lines=case['lines'][:i] + case['lines'][i + 1:])


def nontrivial(case):
    return any(x in ADD for x in case['lines'])


FIXED = [dict(lines=[a], how=h, opts=[]) for a in ADD for h in ('files', 'string', 'inc')] + \
    [dict(lines=['char w%d = 300;' % j for j in range(n)] + ['unknown_t q;'], how=h, opts=[]) for n in (120, 1100) for h in ('files', 'string')] + \
    [dict(lines=['int x;'], how='nofile', opts=[]), dict(lines=[ADD[0], 'int x;'], how='cli', opts=[])]


def check(case):
    codegenerator, config, typedesc = real()
    from clang.cindex import TranslationUnit
    from ctypeslib import clang2py
    from ctypeslib.codegen.handler import InvalidTranslationUnitException
    src = '\n'.join(case['lines']) + '\n'
    d = tempfile.mkdtemp(prefix='vb15')
    try:
        fn = os.path.join(d, 'in.h')
        with open(fn, 'w') as f:
            f.write(src)
        ok = os.path.join(d, 'ok.h')
        with open(ok, 'w') as f:
            f.write('int fine;\n')
        if case['how'] == 'nofile':
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    rc = clang2py.main([os.path.join(d, 'absent.h'), '-o', os.path.join(d, 'out.py')])
                except SystemExit as e:
                    rc = e.code
                except Exception:
                    rc = 1
            return None if rc else 'absent: an input file that does not exist gives status %r' % rc
        opts = case['opts']
        if case['how'] in ('inc', 'deep', 'cliinc'):
            # the damaged text is in an included file
            deep = os.path.join(d, 'sub')
            os.mkdir(deep)
            os.rename(fn, os.path.join(deep, 'in.h'))
            with open(os.path.join(deep, 'mid.h'), 'w') as f:
                f.write('#include "in.h"\nint mid;\n')
            with open(fn, 'w') as f:
                f.write('int before;\n#include "sub/%s.h"\nint after;\n' % ('mid' if case['how'] == 'deep' else 'in'))
        if case['how'] == 'string':
            tu = TranslationUnit.from_source('memory_input.c', opts, unsaved_files=[('memory_input.c', src)], options=64)
        else:
            tu = TranslationUnit.from_source(fn, opts, options=64)
        bad = any(x.severity > 2 for x in tu.diagnostics)
        err = None
        cfg = config.CodegenConfig()
        cfg.clang_opts.extend(opts)
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                if case['how'] in ('cli', 'cliinc'):
                    out = os.path.join(d, 'out.py')
                    a = [fn, '-o', out]
                    if opts:
                        a.append('--clang-args=' + ' '.join(opts))
                    rc = clang2py.main(a)
                    if rc:
                        err = 'status'
                    elif bad:
                        return 'silent: status %r for\n%s' % (rc, src)
                elif case['how'] == 'string':
                    codegenerator.translate(src, io.StringIO(), cfg)
                elif case['how'] in ('files', 'inc', 'deep'):
                    codegenerator.translate_files([fn], io.StringIO(), cfg)
                elif case['how'] == 'two':
                    codegenerator.translate_files([ok, fn], io.StringIO(), cfg)
                else:
                    codegenerator.translate_files(fn, io.StringIO(), cfg)
            except InvalidTranslationUnitException:
                err = 'invalid'
            except SystemExit as e:
                err = 'status' if e.code else None
        if bad and not err:
            return 'silent: clang reports an error, the translation (%s) does not, for\n%s' % (case['how'], src)
        if err and not bad:
            return 'refused: clang reports no error, the translation (%s) fails, for\n%s' % (case['how'], src)
        return None
    finally:
        shutil.rmtree(d)
