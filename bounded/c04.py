"""independence of translations"""
import json
import os
import re
import shutil
import tempfile
from . import c12
from .common import Skip, clang_tu, bad_c, real

RULE = ('random histories of translations in one process (other targets, options, macros, sources; translators created early and used late, interleaved, '
        'by translate(), translate_files and the object interface); every module text is compared with the one a fresh process makes; non-trivial: '
        'at least two translations')
LIMIT = 400
TARGETS = [None, None, 'i386-pc-linux-gnu', 'x86_64-w64-mingw32', 'arm-linux-gnueabi', 'avr']


def gen(r):
    from . import progs
    js = []
    for _ in range(r.randint(2, 5)):
        ds = progs.program(r, r.randint(1, 6), macros=True)
        src = progs.text(ds)
        if r.random() < .4:
            src += 'long double gld; struct wide { long a; unsigned long b; double c; long long d; void *p; char *s; };\n'
        js.append(dict(src=src, target=r.choice(TARGETS), macros=r.random() < .4, comments=r.random() < .2, docs=r.random() < .2,
                       symbols=[d[2] for d in ds if r.random() < .5] if r.random() < .3 else [], opts=r.choice([[], [], ['-DX=1'], ['-fshort-enums']]),
                       how=r.choice(['file', 'string', 'early', 'files']), again=False, header=r.random() < .3))
        if r.random() < .3:
            js[-1]['src'] += '#if __has_include(<opt.h>)\nint with_opt;\n#endif\n'
        if len(js) > 1 and r.random() < .3:
            # another source with the configuration object of the one before
            js[-1] = dict(js[-2], src=js[-1]['src'], how=js[-1]['how'], again=True, header=False)
    return dict(jobs=js)


def reduce(case):
    for i in range(len(case['jobs'])):
        yield dict(jobs=case['jobs'][:i] + case['jobs'][i + 1:])


def nontrivial(case):
    return len(case['jobs']) > 1


def configuration(j):
    codegenerator, config, typedesc = real()
    c = config.CodegenConfig()
    if j['target']:
        c.clang_opts.extend(['-target', j['target']])
    c.clang_opts.extend(j['opts'])
    if j['macros']:
        c.types.append(typedesc.Macro)
    c.generate_comments, c.generate_docstrings = j['comments'], j['docs']
    c.symbols.extend(j['symbols'])
    return c


def start(j, d, k, cfgs):
    codegenerator, config, typedesc = real()
    key = [j[x] for x in ('target', 'opts', 'macros', 'comments', 'docs', 'symbols')]
    last = cfgs.get(k - 1)
    cfgs[k] = last if j.get('again') and last and last[0] == key else (key, configuration(j))
    t = codegenerator.CodeTranslator(cfgs[k][1])
    fn = os.path.join(d, 'f%d' % k, 'in.h')
    os.mkdir(os.path.dirname(fn))
    with open(fn, 'w') as f:
        f.write(j['src'])
    if j.get('header'):
        with open(os.path.join(os.path.dirname(fn), 'opt.h'), 'w') as f:
            f.write('int opt;\n')
    return t, fn


def finish(t, fn, j):
    import io
    codegenerator, config, typedesc = real()
    t.preload_dlls()
    if j['how'] == 'string':
        t.parse_input_string(j['src'])
    elif j['how'] == 'files':
        t.parse_input_files([fn])
    else:
        t.parse_input_file(fn)
    o = io.StringIO()
    t.generate_code(o)
    return o.getvalue()


def norm(x, d):
    return x.replace(d, '')


def history(jobs, alone=None):
    """module texts of all jobs in this process, or of one"""
    d = tempfile.mkdtemp(prefix='vb')
    out = {}
    try:
        idx = range(len(jobs)) if alone is None else [alone]
        early, cfgs = {}, {}
        for k in idx:
            if jobs[k]['how'] == 'early':
                early[k] = start(jobs[k], d, k, cfgs)
                early[k][0].make_clang_parser()
        for k in idx:
            try:
                t, fn = early.get(k) or start(jobs[k], d, k, cfgs)
                out[k] = norm(finish(t, fn, jobs[k]), d)
            except Exception as e:
                out[k] = 'raised %s %s' % (type(e).__name__, norm(str(e), d)[:200])
    finally:
        shutil.rmtree(d)
    return out


def in_child(f, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps({str(k): v for k, v in f(*a).items()})
        except BaseException as e:
            data = json.dumps({'error': str(e)})
        with os.fdopen(w, 'w') as o:
            o.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as i:
        s = i.read()
    os.waitpid(pid, 0)
    return json.loads(s)


def check(case):
    real()
    together = in_child(history, case['jobs'])
    for k in range(len(case['jobs'])):
        alone = in_child(history, case['jobs'], k)
        a, b = together.get(str(k)), alone.get(str(k))
        if a != b:
            diff = [(x, y) for x, y in zip((a or '').splitlines(), (b or '').splitlines()) if x != y][:3]
            return 'differs: translation %d gives %r after the others, alone %r' % (k, [x for x, _ in diff] or a[-200:], [y for _, y in diff] or b[-200:])
    return None
