"""comments, docstrings and locations do not change the module"""
import ctypes
from .common import text_of, clang_tu, bad_c, Skip
from . import progs

RULE = ('random programs with random (also adversarial: quotes, backslashes, code, line breaks) doxygen comments, translated plainly and with every combination '
        'of the comment, docstring and location options; names, values, field lists and prototypes of the two modules are compared; non-trivial: a comment is present')
LIMIT = 900
BITS = ['text', 'import os', '"""', "'''", '\\', '"', "'", '{', '}', '%s', '%d', '# no', '\\n', '...', 'a long explanation of what this is for and why it is there at all',
        'é', '@param x', '$', '*', ':', 'raise SystemExit', '\t', ')', '(', 'class A:', ';', 'x = 1', '__all__ = []', '~' * 90, 'a\rb c', '\x0bd', 'e\x0cf g', '\x85h', 'i\u2028j k']


def comment(r, ind=''):
    t = [' '.join(r.choice(BITS) for _ in range(r.randint(1, 5))) for _ in range(r.randint(1, 3))]
    k = r.random()
    if k < .4:
        return ''.join('%s/// %s\n' % (ind, x.rstrip('\\').replace('\r', ' ') + ' .') for x in t)
    if k < .8:
        return '%s/** %s */\n' % (ind, ('\n%s * ' % ind).join(t).replace('*/', ''))
    return '%s/*! %s */\n' % (ind, t[0].replace('*/', ''))


def gen(r):
    ds = progs.program(r, r.randint(1, 6), macros=True)
    src = ''
    for d in ds:
        if r.random() < .7:
            src += comment(r)
        t = d[3]
        if d[0] in 'su' and r.random() < .4:
            t = t.replace('; ', ';\n' + comment(r, '  '), 1)
        src += t + (' // trailing %s' % r.choice(BITS).rstrip('\\').replace('\r', ' ') if r.random() < .2 and d[0] != 'm' else '') + '\n'
    return dict(src=src, on=[r.random() < .6, r.random() < .6, r.random() < .6], name=r.choice(['in', 'in', 'a b', "it's", 'x"y', 'back\\slash', 'per%cent']))


def reduce(case):
    ls = case['src'].splitlines(True)
    for i in range(len(ls)):
        yield dict(case, src=''.join(ls[:i] + ls[i + 1:]))
    for i in range(3):
        if case['on'][i]:
            yield dict(case, on=case['on'][:i] + [False] + case['on'][i + 1:])
    if case['name'] != 'in':
        yield dict(case, name='in')


def nontrivial(case):
    return any(case['on']) and ('/**' in case['src'] or '///' in case['src'])


def tshow(t, seen=()):
    if t is None or not isinstance(t, type):
        return repr(t)
    if issubclass(t, ctypes._Pointer):
        return 'P(%s)' % tshow(t._type_, seen)
    if issubclass(t, ctypes.Array):
        return '%s[%d]' % (tshow(t._type_, seen), t._length_)
    if issubclass(t, ctypes._CFuncPtr):
        return 'F(%s)' % ','.join(tshow(x, seen) for x in [t._restype_] + list(t._argtypes_ or ()))
    return t.__name__


def api(txt):
    ns = {}
    exec(compile(txt, '<generated>', 'exec'), ns)
    out = {}
    for n, v in ns.items():
        if n == '__builtins__':
            continue
        if isinstance(v, type) and issubclass(v, (ctypes.Structure, ctypes.Union)):
            out[n] = ('record', ctypes.sizeof(v), [(f[0], tshow(f[1])) + tuple(f[2:]) for f in getattr(v, '_fields_', [])],
                      getattr(v, '_anonymous_', ()), [getattr(v, f[0]).offset for f in getattr(v, '_fields_', [])])
        elif isinstance(v, type):
            out[n] = tshow(v) if not hasattr(v, 'argtypes') or not isinstance(getattr(v, 'argtypes', None), list) else \
                ('function', tshow(v.restype), [tshow(a) for a in v.argtypes])
        elif isinstance(v, (int, float, str, list, dict, tuple, bytes)):
            out[n] = repr(v) if n != '_libraries' else sorted(v)
        elif isinstance(v, ctypes._SimpleCData):
            out[n] = (type(v).__name__, repr(v.value))
        else:
            out[n] = type(v).__name__
    return out


def check(case):
    import os
    import tempfile
    if bad_c(clang_tu(case['src'])):
        raise Skip
    c, d, e = case['on']
    base = api(text_of(case['src'], macros=True))
    txt = text_of(case['src'], macros=True, suffix=case['name'] + '.h', generate_comments=c, generate_docstrings=d, generate_locations=e)
    try:
        other = api(txt)
    except Exception as x:
        return 'load: %s: %s with comments=%s docs=%s locations=%s of\n%s\n%s' % (type(x).__name__, x, c, d, e, case['src'], txt[-900:])
    if base != other:
        k = [(n, base.get(n), other.get(n)) for n in sorted(set(base) | set(other)) if base.get(n) != other.get(n)][:3]
        return 'differs: %r with comments=%s docs=%s locations=%s of\n%s' % (k, c, d, e, case['src'])
    return None
