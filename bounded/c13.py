"""same input, same text"""
import json
import os
import subprocess
import sys
from . import c12
from .common import text_of, clang_tu, bad_c, Skip

RULE = ('batches of random programs and selections translated in separate processes with different hash seeds and object addresses and, in one process, twice; the module '
        'texts are compared byte by byte; non-trivial: all cases')
LIMIT = 150
WORKERS = 6
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


LIBS = ['libm.so.6', 'libc.so.6', 'libdl.so.2', 'libpthread.so.0', 'librt.so.1']


def gen(r):
    from . import progs
    out = []
    for _ in range(6):
        if r.random() < .5:
            ds = progs.program(r, r.randint(5, 12), macros=True)
            if r.random() < .3:
                # one record needs many others, requested or not
                js = list(range(r.randint(3, 9)))
                r.shuffle(js)
                ds = [['s', 'r%d' % j, 'struct_r%d' % j, 'struct r%d { int a; };' % j] for j in js]
                ds.insert(r.choice([0, len(ds)]), ['s', 'all', 'struct_all', 'struct all { %s };' % ' '.join(
                    'struct r%d %s;' % (j, r.choice(['*m%d', '*m%d', '*m%d[2]', '**m%d']) % j) for j in js)])
                out.append(dict(src=progs.text(ds), symbols=r.choice([[], ['struct_all']]), exprs=[], comments=False))
                continue
            out.append(dict(src=progs.text(ds), symbols=[d[2] for d in ds if r.random() < .5] if r.random() < .5 else [],
                            exprs=['a', 'b|1', 'foo'] if r.random() < .3 else [], comments=r.random() < .3,
                            preload=r.sample(LIBS, r.randint(1, 5)) if r.random() < .2 else []))
        else:
            out.append(dict(src=c12.gen(r)['src'], symbols=[], exprs=[], comments=False))
    return dict(progs=out, seed=r.randint(1, 10**6))


def reduce(case):
    for i in range(len(case['progs'])):
        yield dict(case, progs=case['progs'][:i] + case['progs'][i + 1:])


def nontrivial(case):
    return True


PATH = '/nonexistent/in.h'


def produce(progs):
    import re
    import tempfile
    out = []
    for p in progs:
        from ctypeslib.codegen import config
        cfg = config.CodegenConfig()
        cfg.symbols = list(p['symbols'])
        cfg.preloaded_dlls = list(p.get('preload', []))
        cfg.expressions = [re.compile(e) for e in p['exprs']]
        try:
            t = text_of(p['src'], macros=True, cfg=cfg, generate_comments=p['comments'], generate_docstrings=p['comments'])
        except Exception as e:
            t = 'raised ' + type(e).__name__
        t = re.sub(r'%s/vb\w+/' % re.escape(tempfile.gettempdir()), '', t)
        out.append(t)
    return out


def check(case):
    texts = []
    for h in (str(case['seed']), str(case['seed'] + 1), '0'):
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'bounded.c13', h], input=json.dumps(case['progs']), text=True, cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=h))
        try:
            texts.append(json.loads(p.stdout))
        except Exception:
            return 'exception: %s' % p.stderr[-800:]
    texts.append(texts[0][len(case['progs']):])
    n = len(case['progs'])
    for i in range(n):
        vs = [t[i] for t in texts]
        if len(set(vs)) > 1:
            a, b = vs[0], next(v for v in vs if v != vs[0])
            diff = [(x, y) for x, y in zip(a.splitlines(), b.splitlines()) if x != y][:2]
            return 'differs: %r for\n%s\nsymbols %s expressions %s' % (diff, case['progs'][i]['src'], case['progs'][i]['symbols'], case['progs'][i]['exprs'])
    return None


if __name__ == '__main__':
    # objects get other addresses in every process: sets of objects come in another order
    k = int(sys.argv[1])
    keep = [[object() for _ in range(k % 911 + 13 * j)] for j in range(40)] + [bytes(j * (k % 17 + 1)) for j in range(800)]
    del keep[::3]
    ps = json.load(sys.stdin)
    first = produce(ps)
    keep += [[dict(a=j) for _ in range(j)] for j in range(60)]
    json.dump(first + produce(ps), sys.stdout)
