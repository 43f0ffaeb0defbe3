"""selection by kind, symbol and expression"""
import re
from .common import module_of, clang_tu, bad_c, Skip
from . import progs

RULE = ('random programs with known references between declarations and random kind, symbol and expression selections; every selected declaration '
        'and what it needs is generated, and nothing that is neither selected nor referenced from something selected; non-trivial: a selection is given')
LIMIT = 1500
PAT = ['a', 'b', '^a', 'b$', '[0-3]', '.*', 'foo', 'x_', 'ab.', '^$', 'Z|y', '1$', 'nothing', 'struct_a', 'm', '(ab)+c?', 'b?', '^foo\\d$', 'c1']


def gen(r):
    ds = progs.program(r)
    c = dict(ds=ds, kinds=None, symbols=[], exprs=[])
    k = r.random()
    if k < .35 or k > .85:
        c['kinds'] = ''.join(x for x in 'cdefstu' if r.random() < .5)
    if .35 <= k < .65 or k > .9:
        c['symbols'] = [d[2] for d in ds if r.random() < .4] + (['missing'] if r.random() < .1 else [])
        r.shuffle(c['symbols'])
    if .55 <= k:
        c['exprs'] = [r.choice(PAT) for _ in range(r.randint(1, 3))]
    return c


def reduce(case):
    for i in range(len(case['ds'])):
        d = progs.drop(case['ds'], i)
        if d is not None:
            yield dict(case, ds=d)
    for k in ('symbols', 'exprs'):
        for i in range(len(case[k])):
            yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})


def nontrivial(case):
    return case['kinds'] is not None or bool(case['symbols'] or case['exprs'])


def check(case):
    from ctypeslib.codegen import config, typedesc
    ds = case['ds']
    src = progs.text(ds)
    if bad_c(clang_tu(src)):
        raise Skip
    cfg = config.CodegenConfig()
    if case['kinds'] is not None:
        cfg._init_types(case['kinds'])
    cfg.symbols = list(case['symbols'])
    cfg.expressions = [re.compile(e) for e in case['exprs']]
    ns, txt = module_of(src, cfg=cfg)
    got = {n for n in ns['__all__'] if '__enumvalues' not in n}
    # what is requested
    kinds = dict(s='sc', u='u', e='e', t='t', f='f', d='d')
    asked = []
    for i, (k, cn, py, *_) in enumerate(ds):
        ok = case['kinds'] is None or any(x in kinds[k] for x in case['kinds'])
        ok = ok and (not case['symbols'] or py in case['symbols'])
        ok = ok and (not case['exprs'] or any(re.search(e, py) for e in case['exprs']))
        if ok:
            asked.append(i)
    need = progs.closure(ds, asked, 4)
    may = progs.closure(ds, asked, 5)

    def names(idx):
        out = set()
        for i in idx:
            out.add(ds[i][2])
            if ds[i][0] == 'e':
                out.update(re.findall(re.escape(ds[i][1]) + r'_\d', ds[i][3]))
        return out
    must = set()
    for i in need:
        # a typedef that only passes through is not needed itself
        if i in asked or ds[i][0] != 't':
            must.add(i)
    lost = names(must) - got
    if lost:
        return 'lost: %s with kinds %r symbols %r expressions %r in\n%s' % (sorted(lost), case['kinds'], case['symbols'], case['exprs'], src)
    extra = got - names(may)
    if extra:
        return 'extra: %s with kinds %r symbols %r expressions %r in\n%s' % (sorted(extra), case['kinds'], case['symbols'], case['exprs'], src)
    return None
