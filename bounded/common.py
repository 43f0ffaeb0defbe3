"""Bounded stand-in: random C inputs through the real, unmodified code of /repo, compared with an
independent oracle (libclang's or the C compiler's view of the same input)."""
import contextlib
import ctypes
import io
import logging
import os
import random
import tempfile
import warnings

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def real():
    import ctypeslib
    from ctypeslib.codegen import codegenerator, config, typedesc
    return codegenerator, config, typedesc


def text_of(src, macros=False, opts=(), suffix='.h', cfg=None, earlier=None, **attrs):
    """module text for a C source (after another one, in one translation)"""
    codegenerator, config, typedesc = real()
    c = cfg or config.CodegenConfig()
    if macros and typedesc.Macro not in c.types:
        c.types.append(typedesc.Macro)
    c.clang_opts.extend(opts)
    for k, v in attrs.items():
        setattr(c, k, v)
    d = tempfile.mkdtemp(prefix='vb')
    fn = os.path.join(d, 'in' + suffix)
    try:
        with open(fn, 'w') as f:
            f.write(src)
        t = codegenerator.CodeTranslator(c)
        t.preload_dlls()
        t.make_clang_parser()
        if earlier is None:
            t.parse_input_file(fn)
        else:
            with open(os.path.join(d, 'before' + suffix), 'w') as f:
                f.write(earlier)
            t.parse_input_files([os.path.join(d, 'before' + suffix), fn])
        o = io.StringIO()
        with contextlib.redirect_stderr(io.StringIO()):
            t.generate_code(o)
        return o.getvalue()
    finally:
        with contextlib.suppress(OSError):
            os.unlink(fn)
        with contextlib.suppress(OSError):
            os.unlink(os.path.join(d, 'before' + suffix))
        os.rmdir(d)


def module_of(src, **kw):
    txt = text_of(src, **kw)
    ns = {}
    exec(compile(txt, '<generated>', 'exec'), ns)
    return ns, txt


def clang_tu(src, opts=(), suffix='.h', detailed=False):
    import ctypeslib  # configures libclang
    from clang.cindex import TranslationUnit
    o = 1 if detailed else 0
    return TranslationUnit.from_source('t' + suffix, list(opts), unsaved_files=[('t' + suffix, src)], options=o)


def bad_c(tu):
    return any(d.severity > 2 or 'will not be visible' in d.spelling for d in tu.diagnostics)


def nasty(r, base, p=.3):
    """base, or an identifier made from it that is long or looks like another kind of name"""
    if r.random() > p:
        return base
    return r.choice([base + '_' + 'quite_a_long_name_' * 5, 'my_struct_' + base, 'a_union_' + base, 'x_enum_' + base, base + '_t', base + '__x', 'c_' + base,
                     'the_PADDING_' + base, base + '_0', 'struct_' + base + '_', 'P' + base, base.upper() + base, 'L' * 80 + base])


def confusable(r, names):
    """different names for the given ones, which only a part tells apart"""
    k = r.choice(['k', 'node', 'a_b'])
    pool = [k, 'struct_' + k, 'union_' + k, 'enum_' + k, k + '_t', k + '_0', k + '_', k + k, k.upper(), 'struct_union_' + k, k + '_struct', k + '_union']
    return dict(zip(names, r.sample(pool, len(names))))


def renamed(src, names):
    """the C text with identifiers replaced"""
    import re
    return re.sub(r'\b[A-Za-z_]\w*', lambda m: names.get(m.group(), m.group()), src) if names else src


class Skip(Exception):
    """the generated case is not in the domain"""


def strip_volatile(txt):
    return txt


# ---------------------------------------------------------------------------------------------
# does a ctypes type say the same as a clang type?
def pyname(decl):
    from clang.cindex import CursorKind
    p = {CursorKind.STRUCT_DECL: 'struct_', CursorKind.UNION_DECL: 'union_'}.get(decl.kind, '')
    return p + decl.spelling


_UNS = ('UCHAR', 'CHAR_U', 'USHORT', 'UINT', 'ULONG', 'ULONGLONG', 'UINT128')
_SIG = ('SCHAR', 'SHORT', 'INT', 'LONG', 'LONGLONG', 'INT128')


def scalar(pt, ct):
    k = ct.kind.name
    size = ct.get_size()
    if pt is None or not isinstance(pt, type):
        return '%r for %s' % (pt, ct.spelling)
    if k != 'VOID' and ctypes.sizeof(pt) != size:
        return '%s of %d bytes for %s of %d' % (pt.__name__, ctypes.sizeof(pt), ct.spelling, size)
    if k == 'BOOL':
        return None if pt is ctypes.c_bool else '%s for %s' % (pt.__name__, ct.spelling)
    if k == 'CHAR_S':
        return None if pt is ctypes.c_char else '%s for %s' % (pt.__name__, ct.spelling)
    if k in ('INT128', 'UINT128', 'LONGDOUBLE'):
        return None
    if k in ('FLOAT', 'DOUBLE'):
        return None if pt(1.5).value == 1.5 else '%s for %s' % (pt.__name__, ct.spelling)
    if k in _UNS or k in _SIG:
        try:
            v = pt(-1).value
        except TypeError:
            return '%s for %s' % (pt.__name__, ct.spelling)
        neg = isinstance(v, int) and not isinstance(v, bool) and v < 0
        if not isinstance(v, int) or isinstance(v, bool) or neg != (k in _SIG):
            return '%s (%s) for %s' % (pt.__name__, 'signed' if neg else 'unsigned', ct.spelling)
        return None
    return 'unexpected kind %s' % k


def match(pt, ct, ns, depth=0):
    """None when the ctypes type pt mirrors the clang type ct, else a description"""
    ct = ct.get_canonical()
    k = ct.kind.name
    if k == 'VOID':
        return None if pt is None else '%r for void' % (pt,)
    if k in ('FUNCTIONPROTO', 'FUNCTIONNOPROTO'):
        if not hasattr(pt, '_argtypes_'):
            return '%r for %s' % (pt, ct.spelling)
        r = match(pt._restype_, ct.get_result(), ns, depth + 1)
        if r:
            return 'result: ' + r
        want = list(ct.argument_types()) if k == 'FUNCTIONPROTO' else []
        if len(pt._argtypes_) != len(want):
            return '%d parameters for %s' % (len(pt._argtypes_), ct.spelling)
        for i, (a, b) in enumerate(zip(pt._argtypes_, want)):
            r = match(a, b, ns, depth + 1)
            if r:
                return 'parameter %d: %s' % (i, r)
        return None
    if k == 'POINTER':
        p = ct.get_pointee().get_canonical()
        if p.kind.name in ('FUNCTIONPROTO', 'FUNCTIONNOPROTO'):
            return match(pt, p, ns, depth + 1)
        if p.kind.name == 'VOID':
            return None if pt is ctypes.POINTER(None) or pt is ctypes.c_void_p else '%r for void*' % (pt,)
        if not (isinstance(pt, type) and issubclass(pt, ctypes._Pointer)):
            return '%r for %s' % (pt, ct.spelling)
        return match(pt._type_, p, ns, depth + 1)
    if k in ('CONSTANTARRAY', 'INCOMPLETEARRAY'):
        if not (isinstance(pt, type) and issubclass(pt, ctypes.Array)):
            return '%r for %s' % (pt, ct.spelling)
        n = max(ct.get_array_size(), 0)
        if pt._length_ != n:
            return 'length %d for %s' % (pt._length_, ct.spelling)
        return match(pt._type_, ct.get_array_element_type(), ns, depth + 1)
    if k == 'RECORD':
        d = ct.get_declaration()
        if not d.spelling or '(' in d.spelling:
            if not (isinstance(pt, type) and issubclass(pt, (ctypes.Structure, ctypes.Union))):
                return '%r for %s' % (pt, ct.spelling)
            base = ctypes.Union if d.kind.name == 'UNION_DECL' else ctypes.Structure
            if not issubclass(pt, base):
                return '%r for %s' % (pt, ct.spelling)
            return None
        if ns.get(pyname(d)) is not pt:
            return '%r for %s' % (pt, ct.spelling)
        return None
    if k == 'ENUM':
        d = ct.get_declaration()
        vals = [c.enum_value for c in d.get_children() if c.kind.name == 'ENUM_CONSTANT_DECL']
        if not isinstance(pt, type) or ctypes.sizeof(pt) != ct.get_size() or (pt(-1).value < 0) != any(v < 0 for v in vals):
            return '%r for %s' % (pt, ct.spelling)
        return None
    return scalar(pt, ct)


# random C declarators --------------------------------------------------------------------------
SCALARS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
           'long long', 'unsigned long long', 'float', 'double', '_Bool', 'long double']


def rand_type(r, bases, depth, void=False, fn_ok=True, arr_ok=True):
    """a type tree: [base] | ['ptr', t] | ['arr', n, t] | ['fn', ret, [params]] (only below 'ptr')"""
    x = r.random()
    if depth <= 0 or x < .25:
        if void and r.random() < .2:
            return ['void']
        return [r.choice(bases)]
    if x < .6:
        y = r.random()
        if y < .3 and fn_ok:
            return ['ptr', ['fn', rand_type(r, bases, depth - 2, True, True, False), None if r.random() < .12 else
                            [rand_type(r, bases, depth - 2, False, True, False) for _ in range(r.choice([0, 1, 1, 2, 3]))]]]
        return ['ptr', rand_type(r, bases, depth - 1, True, fn_ok, True)]
    if arr_ok:
        return ['arr', r.randint(1, 7), rand_type(r, bases, depth - 1, False, fn_ok, True)]
    return ['ptr', rand_type(r, bases, depth - 1, True, fn_ok, True)]


def declare(t, name):
    """the C declaration of name with the type tree t"""
    if t[0] == 'ptr':
        inner = '*' + name
        if t[1][0] in ('arr', 'fn'):
            inner = '(%s)' % inner
        return declare(t[1], inner)
    if t[0] == 'arr':
        return declare(t[2], '%s[%d]' % (name, t[1]))
    if t[0] == 'fn':
        return declare(t[1], '%s(%s)' % (name, '' if t[2] is None else ', '.join(declare(p, '') for p in t[2]) or 'void'))
    return ('%s %s' % (t[0], name)).rstrip()


def all_names(ns):
    return ns['__all__']
