"""only the given files, by default"""
import os
import shutil
import tempfile
from .common import real, Skip
from . import progs

RULE = ('random trees of headers and sources including each other, random lists of source files (relative, absolute, repeated), with and without includes; '
        'declarations generated are compared with those located in the given files; non-trivial: at least one included file that is not given')
LIMIT = 700


def gen(r):
    n = r.randint(2, 5)
    files = []
    for i in range(n):
        name = r.choice(['', 'inc/', 'inc/deep/', 'lib.d/']) + '%s%d.%s' % (r.choice(['a', 'b', 'usr']), i, r.choice(['h', 'h', 'c']))
        decls = [('s', 'S%d' % i), ('v', 'v%d' % i), ('f', 'f%d' % i), ('e', 'E%d' % i), ('t', 'T%d' % i)]
        files.append(dict(name=name, inc=sorted(r.sample(range(i), r.randint(0, min(i, 2)))), decls=[d for d in decls if r.random() < .7],
                          dep=r.random() < .4))
    given = r.sample(range(n), r.randint(1, n))
    if r.random() < .3:
        given.append(r.choice(given))
    links = [r.choice(['', 'links/', 'other/']) + '%s%d.%s' % (r.choice(['lnk', 'a']), 20 + k, files[i]['name'].rsplit('.')[-1]) if r.random() < .15 else None
             for k, i in enumerate(given)]
    for f in files:
        if r.random() < .15:                    # the same name in another directory
            g = r.choice(files)
            nm = r.choice(['same/', 'inc/same/', '']) + os.path.basename(g['name'])
            if nm not in [x['name'] for x in files]:
                f['name'] = nm
    return dict(files=files, given=given, links=links, abs=r.random() < .5, includes=r.random() < .25, one=r.random() < .3, cwd=r.random() < .5)


def reduce(case):
    for i in range(len(case['given'])):
        if len(case['given']) > 1:
            yield dict(case, given=case['given'][:i] + case['given'][i + 1:], links=case['links'][:i] + case['links'][i + 1:])
    for i, f in enumerate(case['files']):
        for j in range(len(f['decls'])):
            yield dict(case, files=case['files'][:i] + [dict(f, decls=f['decls'][:j] + f['decls'][j + 1:])] + case['files'][i + 1:])


def nontrivial(case):
    return any(j not in case['given'] for i in case['given'] for j in case['files'][i]['inc'])


def body(files, i):
    f = files[i]
    out = '#ifndef G%d\n#define G%d\n' % (i, i)
    for j in f['inc']:
        out += '#include "%s"\n' % os.path.relpath(files[j]['name'], os.path.dirname(f['name']) or '.')
    dep = [j for j in f['inc'] if ('s', 'S%d' % j) in map(tuple, files[j]['decls'])] if f['dep'] else []
    for k, n in f['decls']:
        if k == 's':
            out += 'struct %s { int a; %s};\n' % (n, 'struct S%d inner; ' % dep[0] if dep else '')
        elif k == 'v':
            out += 'int %s = %d;\n' % (n, i)
        elif k == 'f':
            out += 'int %s(int a);\n' % n
        elif k == 'e':
            out += 'enum %s { %s_A };\n' % (n, n)
        else:
            out += 'typedef int %s;\n' % n
    return out + '#endif\n', dep


def reach(files, i, seen):
    if i not in seen:
        seen.add(i)
        for j in files[i]['inc']:
            reach(files, j, seen)
    return seen


def check(case):
    codegenerator, config, typedesc = real()
    import io
    files = case['files']
    d = tempfile.mkdtemp(prefix='vb16')
    old = os.getcwd()
    try:
        deps = {}
        for i, f in enumerate(files):
            p = os.path.join(d, f['name'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            txt, deps[i] = body(files, i)
            with open(p, 'w') as o:
                o.write(txt)
        if case['cwd']:
            os.chdir(d)
        base = '' if case['cwd'] and not case['abs'] else d + '/'
        srcs = []
        for i, ln in zip(case['given'], case['links']):
            if ln is None or files[i]['inc']:
                srcs.append(base + files[i]['name'])
            else:                               # the source is given as a symbolic link
                os.makedirs(os.path.dirname(os.path.join(d, ln)), exist_ok=True)
                os.symlink(os.path.join(d, files[i]['name']), os.path.join(d, ln))
                srcs.append(base + ln)
        cfg = config.CodegenConfig()
        cfg.filter_location = not case['includes']
        # a declaration is seen once per file that is parsed: the same file reached twice would be
        # parsed twice
        o = io.StringIO()
        t = codegenerator.CodeTranslator(cfg)
        t.preload_dlls()
        t.parse_input_files(srcs)
        t.generate_code(o)
        txt = o.getvalue()
        ns = {}
        exec(txt, ns)
        got = {n for n in ns['__all__'] if '__enumvalues' not in n}

        def names(i):
            s = set()
            for k, n in files[i]['decls']:
                s.add('struct_' + n if k == 's' else n)
                if k == 'e':
                    s.add(n + '_A')
            return s
        want = set()
        if case['includes']:
            for i in case['given']:
                for j in reach(files, i, set()):
                    want |= names(j)
            extra_ok = set()
        else:
            for i in case['given']:
                want |= names(i)
            extra_ok = set()
            todo = list(case['given'])
            while todo:
                i = todo.pop()
                if ('s', 'S%d' % i) in map(tuple, files[i]['decls']) and deps[i]:
                    n = 'struct_S%d' % deps[i][0]
                    if n not in extra_ok:
                        extra_ok.add(n)
                        todo.append(deps[i][0])
        if want - got:
            return 'lost: %s of %s' % (sorted(want - got), [files[i]['name'] for i in case['given']])
        if not extra_ok <= got:
            return 'lost: the needed %s' % sorted(extra_ok - got)
        if got - want - extra_ok:
            return 'extra: %s with the files %s' % (sorted(got - want - extra_ok), [files[i]['name'] for i in case['given']])
        a = ns['__all__']
        if len(set(a)) != len(a):
            return 'twice: %s' % sorted({n for n in a if a.count(n) > 1})
        return None
    finally:
        os.chdir(old)
        shutil.rmtree(d)
