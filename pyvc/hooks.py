"""Run-time support of the instrumented code: Python operations on symbolic operands."""
import builtins
import collections
import io
import os
import re as _re
import z3
from .core import (Sym, SymInt, SymBool, SymFloat, Unsupported, ctx, mkbool, mkint, tobool, toint)
from . import rope, rx, values
from .rope import SymStr, Atom, Dec, Flo, Quoted, Join, cat, lift, to_text
from .values import (Fields, IList, VDict, VSet, SymStream, SymSeq, Seg, Hidden, Case, sym_eq, py_repr, parts_of,
                     key_is_concrete, whole, exists_fork, derived)
from . import loops


def has_sym(x, d=3):
    if isinstance(x, (Sym, IList, VDict, VSet, SymSeq)):
        return True
    if d and isinstance(x, (tuple, list)):
        return any(has_sym(y, d - 1) for y in x)
    return False


def iter_parts(it):
    if isinstance(it, (IList, VDict, VSet)):
        return it.sym_iter_parts()
    if isinstance(it, SymSeq):
        return [Seg(it)]
    if isinstance(it, SymStr):
        return char_parts(it)
    f = getattr(type(it), '_vc_parts', None)
    return it if f is None else f(it)


def char_parts(s):
    """the characters of a text: known ones, and sequences of characters of the alphabets of the unknown parts"""
    out = []
    for x in s.p:
        if isinstance(x, str):
            out.extend(x)
            continue
        cs = x.charset if isinstance(x, Atom) else frozenset('-0123456789') if isinstance(x, Dec) else \
            frozenset('-+.e0123456789') if isinstance(x, Flo) else None
        if not isinstance(x, (Atom, Dec, Flo)):
            raise Unsupported('iteration over %r' % (x,))
        out.append(Seg(SymSeq(ctx().unique('chars'), lambda sc, cs=cs: sc.str('c', 'char', charset=cs))))
    return out


# ------------------------------------------------------------------ formatting
_PCT = _re.compile(r'%(\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.\d+)?[hlL]?([diouxXeEfFgGcrsa%])')


def _fmt1(conv, flags, width, prec, v):
    if conv in 'sdiu' and not flags and not width and not prec:
        if conv in 'diu':
            if isinstance(v, (SymInt,)):
                return to_text(v)
            if isinstance(v, SymBool):
                return to_text(v._int())
            if isinstance(v, (SymStr, IList)) or v is None:
                raise TypeError('%d format: a number is required')
            return '%d' % v
        return to_text(v)
    if conv == 'r':
        return py_repr(v)
    if isinstance(v, (Sym, IList)):
        raise Unsupported('format %%%s%s' % (flags, conv))
    return ('%' + flags + (width or '') + (prec or '') + conv) % (v,)


def fmt_percent(f, args):
    if isinstance(f, SymStr):
        pieces = list(f.p)
    else:
        pieces = [f]
    mapping = None
    if isinstance(args, (VDict, dict)):
        mapping = args
        seq = []
    elif isinstance(args, IList) and args.tuple_:
        seq = list(args.need())
    elif isinstance(args, tuple):
        seq = list(args)
    else:
        seq = [args]
    out = []
    i = 0
    for p in pieces:
        if not isinstance(p, str):
            if isinstance(p, Atom) and (p.charset is None or '%' in p.charset):
                raise Unsupported('format string with unknown text')
            out.append(SymStr((p,)))
            continue
        pos = 0
        for m in _PCT.finditer(p):
            out.append(p[pos:m.start()])
            pos = m.end()
            if m.group(6) == '%':
                out.append('%')
                continue
            if m.group(2):
                v = mapping[m.group(2)]
            else:
                if i >= len(seq):
                    raise TypeError('not enough arguments for format string')
                v = seq[i]
                i += 1
            out.append(_fmt1(m.group(6), m.group(3), m.group(4), m.group(5), v))
        rest = p[pos:]
        if '%' in rest:
            raise Unsupported('format string %r' % p)
        out.append(rest)
    if mapping is None and i < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return cat(out)


def mod(a, b):
    if isinstance(a, SymStr) or isinstance(a, str):
        if isinstance(a, str) and not needs_sym(b):
            return a % b
        return fmt_percent(a, b)
    return a % b


def needs_sym(b):
    if has_sym(b):
        return True
    if isinstance(b, tuple):
        return any(needs_sym(x) for x in b)
    return hasattr(b, '__dict__') and not isinstance(b, type)


def fstr(parts):
    """parts: strings or (value, conversion, format spec)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = py_repr(v)
        elif conv == 's':
            v = to_text(v)
        if not spec:
            out.append(to_text(v) if isinstance(v, (Sym, IList)) or hasattr(v, '__dict__') else format(v))
        elif isinstance(v, SymInt) and spec == 'd':
            out.append(to_text(v))
        elif isinstance(v, (Sym, IList)):
            raise Unsupported('format spec %r' % spec)
        else:
            out.append(format(v, spec))
    return cat(out)


def str_format(f, args, kw):
    import string
    out = []
    auto = 0
    if isinstance(f, SymStr):
        raise Unsupported('symbolic format string')
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        first, rest = _field(field)
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for is_attr, n in rest:
            v = getattr(v, n) if is_attr else v[int(n) if n.isdigit() else n]
        out.append(fstr([(v, conv, spec)]))
    return cat(out)


def _field(name):
    m = _re.match(r'[^.\[]*', name)
    first = m.group(0)
    rest = [(True, a) if a else (False, b) for a, b in _re.findall(r'\.(\w+)|\[([^\]]*)\]', name[m.end():])]
    return first, rest


def join(sep, it):
    ps = []
    for p in iter_parts(it):
        if isinstance(p, Fields) and p.sep == sep:
            p = p.text
        if isinstance(p, Hidden):
            p.read()
        ps.append(p)
    if not any(isinstance(p, Seg) for p in ps):
        out = []
        for k, p in enumerate(ps):
            if not isinstance(p, (str, SymStr)):
                raise TypeError('sequence item %d: expected str instance, %s found' % (k, type(p).__name__))
            if k:
                out.append(sep)
            out.append(p)
        return cat(out)
    for p in ps:
        if isinstance(p, Seg) and p.cases is not None:
            for k in p.cases:
                for v in k.values:
                    if not isinstance(v, (str, SymStr, Seg)):
                        raise TypeError('sequence item: expected str instance')
    return SymStr((Join(sep, ps),))


STRM = {'format', 'join', 'startswith', 'endswith', 'replace', 'split', 'strip', 'lstrip', 'rstrip', 'splitlines',
        'encode', 'decode', 'find', 'rfind', 'index', 'count', 'upper', 'lower', 'partition', 'rpartition', 'isdigit'}


def meth(o, name, *a, **k):
    if isinstance(o, str) and (has_sym(a) or any(has_sym(v) for v in k.values()) or name == 'format'):
        if name == 'format':
            return str_format(o, a, k)
        if name == 'join':
            return join(o, a[0])
        if name in ('startswith', 'endswith', 'replace', 'split', 'find', 'count', 'index'):
            s = SymStr((o,)) if o else SymStr(())
            return getattr(s, name)(*a, **k)
        raise Unsupported('str.%s with symbolic arguments' % name)
    if isinstance(o, SymStr) and name == 'join':
        return join(o, a[0])
    r = getattr(o, name)(*a, **k)
    if isinstance(o, str) and type(r) is list:
        return IList(r)
    return r


# ------------------------------------------------------------------ operators
def contains(x, c):
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr((c,) if c else ()).__contains__(x)
    if isinstance(c, (dict, set, frozenset)) and not key_is_concrete(x):
        for k in list(c):
            if k is x or builtins.bool(sym_eq(k, x)):
                return True
        return False
    if isinstance(c, (type({}.keys()),)) and not key_is_concrete(x):
        return contains(x, list(c))
    if isinstance(c, (list, tuple)) and (has_sym(x) or has_sym(c)):
        for k in c:
            if k is x or builtins.bool(sym_eq(k, x)):
                return True
        return False
    if isinstance(c, SymSeq):
        c = whole(c)
    return x in c


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return builtins.bool(a == b)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return builtins.bool(b == a)
    if isinstance(a, IList) and isinstance(b, type) or isinstance(b, IList) and isinstance(a, type):
        return False
    a, b = real(a), real(b)
    if a is b:
        return True
    same = values.same_object(a, b)
    return False if same is None else builtins.bool(same)


def getitem(c, k):
    if isinstance(c, (dict,)) and not key_is_concrete(k):
        for kk in list(c):
            if kk is k or builtins.bool(sym_eq(kk, k)):
                return c[kk]
        raise KeyError(k)
    if isinstance(c, (list, tuple, str)) and isinstance(k, SymInt):
        for i in range(len(c)):
            if builtins.bool(k == i):
                return c[i]
        raise Unsupported('symbolic index')
    return c[k]


class Pack:
    """what an unpacked argument list of unknown length, or a mapping with unknown names, is passed as"""

    def __init__(self, v):
        self.v = v


def unpacked(x):
    """the value of *args / **kwds"""
    if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], Pack):
        return x[0].v
    if isinstance(x, dict) and list(x) == [PACK]:
        return x[PACK].v
    return x


PACK = '__vc_pack'


def starcall(f, args, kws):
    """f(..., *x, name=.., **m).  A list of unknown length or a mapping with unknown names goes, as Pack, to a stand-in
    that is made for it (_vc_star)"""
    pos, kw = [], {}
    vd = None
    for star, x in args:
        if star and not (isinstance(x, IList) and not x.concrete):
            pos.extend(x)
        elif star:
            if len(args) != 1:
                raise Unsupported('several arguments with a list of unknown length')
            pos.append(Pack(x))
        else:
            pos.append(x)
    for n, x in kws:
        if n is not None:
            kw[n] = x
        elif isinstance(x, VDict) and not (x.entries.concrete and all(isinstance(p[0], str) for p in x.entries.parts)):
            vd = x
        elif isinstance(x, VDict):
            kw.update(x.entries.parts)
        else:
            kw.update(x)
    if vd is not None:
        if kw:
            raise Unsupported('keywords and a mapping with unknown names')
        kw = {PACK: Pack(vd)}
    if (vd is not None or any(isinstance(p, Pack) for p in pos)) and not getattr(getattr(f, '__func__', f), '_vc_star', False):
        raise Unsupported('unpacking of unknown arguments for %r' % (f,))
    return f(*pos, **kw)


def setitem(c, k, v):
    if isinstance(c, dict) and not key_is_concrete(k):
        raise Unsupported('symbolic key in a plain dict')
    c[k] = v


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, o):
        return s_isinstance(o, cls)

    def __eq__(cls, o):
        return cls is o or real(cls) is real(o)

    def __hash__(cls):
        return hash(type.__getattribute__(cls, '_real'))


class s_str(metaclass=_Meta):
    _real = builtins.str

    def __new__(cls, x='', *a):
        if a:
            return builtins.str(x, *a)
        return to_text(x)


class s_int(metaclass=_Meta):
    _real = builtins.int

    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt) and not a:
            return x
        if isinstance(x, SymBool) and not a:
            return x._int()
        if isinstance(x, SymStr):
            return str_to_int(x, *a)
        return builtins.int(x, *a)

    from_bytes = builtins.int.from_bytes


class s_float(metaclass=_Meta):
    _real = builtins.float

    def __new__(cls, x=0.0):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            return SymFloat(z3.ToReal(x.z))
        if isinstance(x, SymStr):
            return str_to_float(x)
        if isinstance(x, Sym):
            raise Unsupported('float of a symbolic value')
        return builtins.float(x)

    @staticmethod
    def fromhex(x):
        if isinstance(x, SymStr):
            return str_to_float(x, 'hex')
        if isinstance(x, Sym):
            raise TypeError('bad argument type for built-in operation')
        return builtins.float.fromhex(x)


class s_bool(metaclass=_Meta):
    _real = builtins.bool

    def __new__(cls, x=False):
        return builtins.bool(x)


class s_list(metaclass=_Meta):
    _real = builtins.list

    def __new__(cls, it=()):
        return IList(list(iter_parts(it)))


class s_tuple(metaclass=_Meta):
    _real = builtins.tuple

    def __new__(cls, it=()):
        ps = list(iter_parts(it))
        if not any(isinstance(p, (Seg, Hidden)) for p in ps):
            return builtins.tuple(ps)
        return IList(ps, tuple_=True)


class s_set(metaclass=_Meta):
    _real = builtins.set

    def __new__(cls, it=()):
        return VSet(IList(list(iter_parts(it))))


class s_dict(metaclass=_Meta):
    _real = builtins.dict

    def __new__(cls, *a, **k):
        return VDict(*a, **k)


class s_OrderedDict(s_dict):
    _real = collections.OrderedDict


SYMT = {str: (SymStr,), int: (SymInt, SymBool), bool: (SymBool,), list: (IList,), tuple: (), set: (VSet,),
        frozenset: (), dict: (VDict,), collections.OrderedDict: (VDict,), float: (SymFloat,)}


def real(t):
    if t is s_type:
        return builtins.type
    return type.__getattribute__(t, '_real') if type(t) is _Meta else t


def s_isinstance(o, t):
    if isinstance(t, (tuple, IList)):
        return any_native(s_isinstance(o, x) for x in t)
    t = real(t)
    if isinstance(o, IList):
        if o.tuple_:
            return t in (tuple, object)
        import collections.abc as cabc
        return t in (list, object, cabc.Iterable, cabc.Sequence, cabc.Sized, cabc.Container, cabc.Collection)
    if isinstance(o, (VDict, VSet)):
        import collections.abc as cabc
        return t in ((dict, collections.OrderedDict) if isinstance(o, VDict) else (set,)) or t in (
            object, cabc.Iterable, cabc.Sized, cabc.Container, cabc.Collection)
    if isinstance(o, Sym):
        import collections.abc as cabc
        if isinstance(o, SymStr) and t in (cabc.Iterable, cabc.Sequence, cabc.Hashable):
            return True
        return t is object or any_native(isinstance(o, x) for x in SYMT.get(t, ()))
    return builtins.isinstance(o, t)


def any_native(it):
    for x in it:
        if x:
            return True
    return False


def s_issubclass(a, b):
    return issubclass(real(a), tuple(real(x) for x in b) if isinstance(b, tuple) else real(b))


def s_type(*a):
    if len(a) != 1:
        return builtins.type(*a)
    o = a[0]
    if isinstance(o, IList):
        return tuple if o.tuple_ else list
    for c, t in ((VDict, dict), (VSet, set), (SymStr, str), (SymInt, int), (SymBool, bool), (SymFloat, float)):
        if isinstance(o, c):
            return t
    return type(o)


def s_len(o):
    if isinstance(o, (IList, VDict, VSet, SymStr)):
        return o.sym_len()
    if isinstance(o, SymSeq):
        return o.length
    return len(o)


def s_repr(o):
    return py_repr(o) if has_sym(o) else repr(o)


def _each(it):
    for p in iter_parts(it):
        if isinstance(p, Hidden):
            p.read()
        yield p


def s_any(it):
    """any(...) of a list: forks on existence"""
    for p in _each(it):
        if isinstance(p, Seg):
            if exists_truth(p, True):
                return True
        elif p:
            return True
    return False


def s_all(it):
    for p in _each(it):
        if isinstance(p, Seg):
            if exists_truth(p, False):
                return False
        elif not p:
            return False
    return True


def exists_truth(p, want):
    from .values import derived, exists_where, member_formula

    def test(v):
        if isinstance(v, (SymBool, bool)):
            z = tobool(v)
        elif isinstance(v, SymInt):
            z = v.z != 0
        elif isinstance(v, (SymStr, str)):
            b = len(v.p) and None if isinstance(v, SymStr) else builtins.bool(v)
            z = (v.to_z3() != z3.StringVal('')) if isinstance(v, SymStr) else b
        elif isinstance(v, Sym):
            raise Unsupported('truth of %r' % (v,))
        else:
            z = builtins.bool(v)
        if want:
            return SymBool(z) if not isinstance(z, bool) else z
        return SymBool(z3.Not(z)) if not isinstance(z, bool) else not z
    p = derived(p)
    return exists_where(p, member_formula(p, test))


def s_sum(it, start=0):
    r = start
    for p in _each(it):
        if isinstance(p, Seg):
            if p.cases is not None and not any_native(v for k in p.cases for v in k.values if not isinstance(v, Sym)) and \
                    not any_native(isinstance(v, (Sym, Seg, Hidden)) for k in p.cases for v in k.values):
                continue                # zeros
            raise Unsupported('sum over a sequence')
        r = r + p
    return r


def s_exec(code, space=None, *a):
    """a known program, run in a known namespace"""
    if not isinstance(space, VDict) and not isinstance(code, SymStr):
        return exec(code, space, *a)
    if isinstance(code, (SymStr, IList)) or a:
        raise Unsupported('execution of an unknown text')
    d = {}
    exec(code, d)
    for k, x in d.items():
        space[k] = x


def s_sorted(it, key=None, reverse=False):
    ps = list(_each(it)) if not isinstance(it, VSet) else list(it.items.parts)
    if not any(isinstance(p, Seg) for p in ps) and not any(has_sym(p) for p in ps):
        return IList(sorted(ps, key=key, reverse=reverse))
    if key is not None or reverse:
        raise Unsupported('sorted with a key')
    if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].cases is None and not ps[0].maps:
        src = ps[0].seq
        old = ctx().seqs.get('sorted(%s)' % src.name)
        if old is not None and getattr(old, 'sorted_of', None) is src:
            return whole(old)
        s = SymSeq('sorted(%s)' % src.name, src.factory)
        s.sorted_of = src
        ctx().assume_quiet(s.length.z == src.length.z)
        return whole(s)
    if all(isinstance(p, (str, SymStr, int, SymInt)) for p in ps):
        out = []
        for p in ps:                    # insertion sort; forks
            i = len(out)
            while i > 0 and builtins.bool(before(p, out[i - 1])):
                i -= 1
            out.insert(i, p)
        return IList(out)
    raise Unsupported('sorted of symbolic items')


def before(a, b):
    """a < b"""
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and not (isinstance(a, str) and isinstance(b, str)):
        return SymBool(z3.simplify(lift(a).to_z3() < lift(b).to_z3()))
    return a < b


def s_minmax(f):
    def g(*a, key=None, **kw):
        if len(a) == 1:
            ps = list(_each(a[0]))
        else:
            ps = list(a)
        if not any(isinstance(p, (Seg, Sym)) for p in ps):
            return f(ps, key=key, **kw) if key else f(ps, **kw)
        if key is not None:
            raise Unsupported('min/max with a key')
        nm = 'max' if f is max else 'min'
        if any(isinstance(p, Seg) for p in ps):
            if len(ps) != 1:
                raise Unsupported('%s of mixed list' % nm)
            from .values import derived
            p = derived(ps[0])
            if not exists_fork(ps[0]):
                if 'default' in kw:
                    return kw['default']
                raise ValueError('%s() arg is an empty sequence' % nm)
            m = z3.Int(ctx().unique(nm))
            # upper bound of every value, attained by one
            allc = []
            somec = []
            for k in p.cases:
                g = z3.And(*k.guards) if k.guards else z3.BoolVal(True)
                for v in k.values:
                    allc.append(z3.Implies(g, (toint(v) <= m) if f is max else (toint(v) >= m)))
                    somec.append(z3.And(g, toint(v) == m))
            p.seq.forall(p.tag, z3.And(*allc))
            t = p.seq.fresh_tag('m')
            p.seq.activate(t)
            from .values import subst
            ctx().assume_quiet(subst(z3.Or(*somec), p.seq.name, p.tag, t))
            return SymInt(m)
        r = ps[0]
        for p in ps[1:]:
            x, y = toint(r), toint(p)
            r = mkint(z3.If((x >= y) if f is max else (x <= y), x, y))
        return r
    return g


def s_enumerate(it, start=0):
    out = []
    n = start
    for p in iter_parts(it):
        if isinstance(p, Hidden):
            p.read()
        if isinstance(p, Seg):
            if not p.one_each():
                raise Unsupported('enumerate of a filtered sequence')
            base = n
            out.append(p.map(lambda v, i, base=base: (i + base, v)))
            n = n + p.seq.length
        else:
            out.append((n, p))
            n = n + 1
    return IList(out)


def s_zip(*its):
    if not any(isinstance(i, (IList, SymSeq, VDict)) for i in its):
        return IList(list(zip(*its)))
    lists = [list(iter_parts(i)) for i in its]
    out = []
    n = min(len(x) for x in lists)
    for k, row in enumerate(zip(*lists)):
        if any(isinstance(p, Hidden) for p in row):
            raise Unsupported('zip of loop output')
        if not any(isinstance(p, Seg) for p in row):
            out.append(tuple(row))
            continue
        if not all(isinstance(p, Seg) and p.seq is row[0].seq for p in row):
            raise Unsupported('zip of different sequences')
        pre = [p for p in row if p.rng is not None]
        if pre:
            # one list holds the items for a first part of the sequence only
            if len(pre) > 1 or k != n - 1 or not is_prefix(pre[0]):
                raise Unsupported('zip of parts of sequences')
            whole_ = [Seg(p.seq, p.tag, p.cases, None, p.maps) for p in row]
            if not all(p.one_each() for p in whole_):
                raise Unsupported('zip of different sequences')
            row = [derived(p) for p in whole_]
            z = zip_segs(row)
            out.append(Seg(z.seq, z.tag, z.cases, values.subst(pre[0].rng, z.seq.name, pre[0].tag, z.tag)))
            return IList(out)
        if not all(p.one_each() for p in row):
            raise Unsupported('zip of different sequences')
        out.append(zip_segs(row))
    if any(len(x) > n and any(isinstance(p, Seg) for p in x[:n + 1]) for x in lists):
        raise Unsupported('zip of lists of different shape')
    return IList(out)


def is_prefix(p):
    """the range is: index smaller than something that is the same for all elements"""
    z = p.rng
    return z.decl().kind() == z3.Z3_OP_LT and z.arg(0).eq(p.seq.idx(p.tag)) and \
        not any(x.startswith('%s[' % p.seq.name) for x in loops.free_consts(z.arg(1)))


def zip_segs(row):
    d = [p for p in row if p.cases is not None]
    if not d:
        f = [p.maps for p in row]

        def tup(v, i):
            vs = []
            for maps in f:
                x = v
                for m in maps:
                    x = m(x, i)
                vs.append(x)
            return tuple(vs)
        return Seg(row[0].seq, maps=(tup,))
    tag = d[0].tag
    if any(p.cases is None for p in row) or any(p.tag != tag for p in row):
        return zip_mixed(row)
    combos = [([], ())]
    for p in row:
        combos = [(g + list(k.guards), vs + (k.values[0],)) for g, vs in combos for k in p.cases]
    return Seg(row[0].seq, tag, [Case(g, [vs]) for g, vs in combos])


def zip_mixed(row):
    """different generic elements of one sequence: rename the later ones"""
    from .values import subst
    base = row[0] if row[0].cases is not None else None
    d = [p for p in row if p.cases is not None]
    tag = d[0].tag
    combos = [([], ())]
    for p in row:
        if p.cases is None:
            raise Unsupported('zip of a sequence with loop output over it')
        new = []
        for g, vs in combos:
            for k in p.cases:
                gs = [subst(x, p.seq.name, p.tag, tag) for x in k.guards]
                new.append((g + gs, vs + (retag(k.values[0], p.seq.name, p.tag, tag),)))
        combos = new
    return Seg(row[0].seq, tag, [Case(g, [vs]) for g, vs in combos])


def retag(v, name, t0, t1, memo=None):
    """the value with the constants of element t0 replaced by those of t1"""
    from .values import subst
    if t0 == t1:
        return v
    memo = {} if memo is None else memo
    if isinstance(v, SymInt):
        return SymInt(subst(v.z, name, t0, t1))
    if isinstance(v, SymFloat):
        return SymFloat(subst(v.z, name, t0, t1))
    if isinstance(v, SymBool):
        return SymBool(subst(v.z, name, t0, t1))
    if isinstance(v, SymStr):
        out = []
        for p in v.p:
            if isinstance(p, Atom):
                z = subst(p.z, name, t0, t1)
                out.append(Atom(str(z), p.kind, z, p.charset))
            elif isinstance(p, (Dec, Flo)):
                out.append(type(p)(subst(p.z, name, t0, t1)))
            elif isinstance(p, str):
                out.append(p)
            else:
                raise Unsupported('renaming of %r' % (p,))
        return SymStr(out)
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (tuple, list)):
        out = [retag(x, name, t0, t1, memo) for x in v]
        return v if all(a is b for a, b in zip(v, out)) else type(v)(out)
    if id(v) in memo:
        return memo[id(v)][0]
    pre = '%s[%s].' % (name, t0)
    if not any(x.startswith(pre) for x in loops.deep_consts(v, set(), 8)) and not hasattr(v, '__dict__'):
        return v
    if not loops.tracked(v) and (type(v).__module__ or '').startswith('specs'):
        pass
    elif not loops.tracked(v):
        if any(x.startswith(pre) for x in loops.deep_consts(v, set(), 8)):
            raise Unsupported('renaming of %s' % type(v).__name__)
        return v
    new = object.__new__(type(v))
    memo[id(v)] = (new, v)
    changed = False
    for k, x in vars(v).items():
        if callable(x) and hasattr(x, '__closure__') and not isinstance(x, type):
            raise Unsupported('renaming of an object with stubs')
        y = retag(x, name, t0, t1, memo)
        changed |= y is not x
        new.__dict__[k] = y
    if not changed:
        memo[id(v)] = (v, v)
        return v
    return new


def s_map(f, *its):
    if len(its) != 1:
        raise Unsupported('map of several lists')
    return loops.comp('list', ('map', id(f) and getattr(f, '__qualname__', 'f')), its[0], f, None, {})


def s_filter(f, it):
    return loops.comp('list', ('filter', getattr(f, '__qualname__', 'f')), it, lambda x: x,
                      (lambda x: f(x)) if f is not None else (lambda x: x), {})


def s_reversed(it):
    ps = list(_each(it))
    if any(isinstance(p, Seg) for p in ps):
        raise Unsupported('reversed')
    return IList(ps[::-1])


def s_print(*a, sep=' ', end='\n', file=None, flush=False):
    import sys
    txt = []
    for k, x in enumerate(a):
        if k:
            txt.append(sep)
        txt.append(to_text(x))
    txt.append(end)
    t = cat(txt)
    if file is None:
        file = sys.stdout
    if isinstance(t, SymStr) or isinstance(file, SymStream) or getattr(type(file), '_vc_state', False):
        file.write(t)
    else:
        file.write(t)


_MISS = object()


def s_getattr(o, n, d=_MISS):
    if isinstance(n, SymStr):
        f = getattr(type(o), '_vc_getattr', None)
        if f is not None:
            if d is _MISS:
                return f(o, n)
            try:
                return f(o, n)
            except AttributeError:
                return d
        g = getattr(type(o), '__getattr__', None)
        if g is not None:
            try:
                return g(o, n)
            except AttributeError:
                if d is _MISS:
                    raise
                return d
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n) if d is _MISS else getattr(o, n, d)


def s_hasattr(o, n):
    if isinstance(n, SymStr):
        try:
            s_getattr(o, n)
            return True
        except AttributeError:
            return False
    return hasattr(o, n)


def s_abs(x):
    return abs(x)


def s_range(*a):
    if any(isinstance(x, SymInt) for x in a):
        if len(a) == 1:
            s = SymSeq('range', lambda sc: sc.idx())
            ctx().assume_quiet(s.length.z == z3.If(a[0].z > 0, a[0].z, 0))
            return whole(s)
        raise Unsupported('range with symbolic bounds')
    return range(*a)


PREFIX = {16: ('0x', '0X'), 8: ('0o', '0O'), 2: ('0b', '0B')}
DIGIT = '0123456789abcdefghijklmnopqrstuvwxyz'


def numeral(base, s):
    """the value of a text of digits"""
    if isinstance(s, str):
        return builtins.int(s, base)
    if len(s.p) == 1 and isinstance(s.p[0], Dec) and base == 10:
        return SymInt(s.p[0].z)
    s = rx.text(rx.items(s))            # (without the parts that are empty on this path)
    if isinstance(s, str):
        return builtins.int(s, base)
    z = z3.Int('numeral_%d%s' % (base, z3.simplify(s.to_z3()).sexpr()))
    ctx().assume_quiet(z >= 0)
    return SymInt(z)


def str_to_int(s, base=10):
    """int() of a text: an uninterpreted value of the digits, leading zeros aside"""
    f = getattr(ctx(), 'parse_int', None)
    if f is not None:
        r = f(s, base)
        if r is not None:
            return r
    if len(s.p) == 1 and isinstance(s.p[0], Dec) and base == 10:
        return SymInt(s.p[0].z)
    if not isinstance(base, builtins.int) or base < 2:
        raise Unsupported('int() with this base')
    its = rx.items(s)
    neg = False
    if its and its[0] in ('-', '+'):
        neg = its.pop(0) == '-'
    if len(its) > 2 and its[0] == '0' and isinstance(its[1], str) and '0' + its[1] in PREFIX.get(base, ()):
        its = its[2:]
    good = frozenset(DIGIT[:base]) | frozenset(DIGIT[:base].upper())
    if not its:
        raise ValueError('invalid literal for int()')
    for x in its:
        cs = frozenset(x) if isinstance(x, str) else x.cs
        if cs & frozenset('_ \t\n\r\x0b\x0c'):
            raise Unsupported('int() of %r' % (s,))
        if not cs & good:
            raise ValueError('invalid literal for int()')
        if not cs <= good:
            raise Unsupported('int() of %r' % (s,))
    while len(its) > 1 and its[0] == '0':
        its.pop(0)
    r = numeral(base, rx.text(its))
    return -r if neg else r


FLOAT = {'dec': r'(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', 'hex': r'(0[xX])?([0-9a-fA-F]+(\.[0-9a-fA-F]*)?|\.[0-9a-fA-F]+)([pP][+-]?\d+)?'}


def str_to_float(s, kind='dec'):
    """float() of a text: an uninterpreted value of the digits"""
    from .rope import Flo
    p = list(s.p)
    neg = False
    if isinstance(p[0], str) and p[0][0] in '+-':
        neg = p[0][0] == '-'
        p[0] = p[0][1:]
        p = p if p[0] else p[1:]
    if len(p) == 1 and isinstance(p[0], Flo) and kind == 'dec':
        z = p[0].z
    elif len(p) == 1 and isinstance(p[0], Dec) and kind == 'dec':
        z = z3.ToReal(p[0].z)
    else:
        t = SymStr(tuple(p))
        if rx.match(FLOAT[kind], t, 0, True) is None:
            if any_native(t.may_contain(ch) is not False for ch in 'iInNaAfF_ \t\n'):
                raise Unsupported('float() of %r' % (s,))
            raise ValueError('could not convert string to float')
        t = rx.text(rx.items(t))
        if isinstance(t, str):
            return builtins.float.fromhex(t) if kind == 'hex' else builtins.float(t)
        z = z3.Real('float_%s%s' % (kind, z3.simplify(t.to_z3()).sexpr()))
        ctx().assume_quiet(z >= 0)
    return SymFloat(-z if neg else z)
    f = getattr(ctx(), 'parse_int', None)
    if f is not None:
        r = f(s, base)
        if r is not None:
            return r
    raise Unsupported('int() of %r' % (s,))


def s_iter(it, *a):
    if isinstance(it, (IList, VDict, VSet)) :
        return iter(it)
    return iter(it, *a)


def s_next(it, *d):
    if isinstance(it, IList):
        if it.nonempty():
            return it[0]
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


BUILTINS = dict(vars(builtins))
BUILTINS.update(isinstance=s_isinstance, exec=s_exec, issubclass=s_issubclass, type=s_type, len=s_len, repr=s_repr, any=s_any,
                all=s_all, sum=s_sum, sorted=s_sorted, max=s_minmax(max), min=s_minmax(min), enumerate=s_enumerate,
                zip=s_zip, map=s_map, filter=s_filter, reversed=s_reversed, print=s_print, getattr=s_getattr,
                hasattr=s_hasattr, range=s_range, next=s_next, str=s_str, int=s_int, float=s_float, list=s_list,
                tuple=s_tuple, set=s_set, dict=s_dict, frozenset=s_set, bool=s_bool)


class Shim:
    """module with some names replaced"""

    def __init__(self, mod, **kw):
        self.__dict__['_m'] = mod
        self.__dict__['_k'] = kw

    def __getattr__(self, n):
        k = self.__dict__['_k']
        return k[n] if n in k else getattr(self.__dict__['_m'], n)


class ReShim(Shim):
    pass


def re_sub(pat, rep, s, count=0, flags=0):
    if isinstance(pat, rx.Pattern):
        return pat.sub(rep, s, count)
    if isinstance(s, SymStr):
        f = getattr(ctx(), 're_sub', None)
        if f is not None:
            return f(pat, rep, s)
        return rx.sub(pat, rep, s, count, flags)
    return _re.sub(pat, rep, s, count, flags)


def re_find(name):
    def f(pat, s, flags=0):
        if isinstance(pat, rx.Pattern):
            return getattr(pat, name)(s)
        if isinstance(s, SymStr):
            if isinstance(pat, SymStr):
                raise Unsupported('unknown regular expression')
            return {'match': rx.match, 'search': rx.search,
                    'fullmatch': lambda p, x, g: rx.match(p, x, g, True)}[name](pat, s, flags)
        return getattr(_re, name)(pat, s, flags)
    return f


def re_compile(pat, flags=0):
    if isinstance(pat, str):
        return rx.Pattern(pat, int(flags), _re.compile(pat, flags))
    return _re.compile(pat, flags)


SPACE = ' \t\n\r\x0b\x0c'


def split_space(s):
    """re.split on white space, when no unknown part contains any"""
    from .rope import Join
    if len(s.p) == 1 and isinstance(s.p[0], Join) and s.p[0].sep and not s.p[0].sep.strip():
        for ch in SPACE:
            s.p[0].safe(ch)
        return s.p[0].split()
    out = [[]]
    for x in s.p:
        if isinstance(x, str):
            bits = _re.split(r'\s+', x)
            out[-1].append(bits[0])
            out += [[b] for b in bits[1:]]
        else:
            if any(SymStr((x,)).may_contain(ch) is not False for ch in SPACE):
                raise Unsupported('split of an unknown string')
            out[-1].append(SymStr((x,)))
    return IList([cat(x) for x in out])


def re_split(pat, s, *a):
    if isinstance(s, SymStr):
        if pat == r'\s+' and not a:
            return split_space(s)
        raise Unsupported('re.split on a symbolic string')
    return IList(_re.split(pat, s, *a))


def s_splitlines(s):
    return s.splitlines()


def _pathfn(name):
    def f(x, *a):
        if isinstance(x, SymStr):
            if a:
                raise Unsupported('os.path.%s with several arguments' % name)
            z = z3.Function('os.path.' + name, z3.StringSort(), z3.StringSort())(x.to_z3())
            return SymStr((Atom(z.sexpr(), 'text', z),))
        return getattr(os.path, name)(x, *a)
    return f


def _pathpred(name):
    def f(x):
        if isinstance(x, SymStr):
            return mkbool(z3.Function('os.path.' + name, z3.StringSort(), z3.BoolSort())(x.to_z3()))
        return getattr(os.path, name)(x)
    return f


OSPATH = Shim(os.path, **{n: _pathfn(n) for n in ('abspath', 'basename', 'dirname', 'realpath', 'normpath', 'expanduser')},
              **{n: _pathpred(n) for n in ('exists', 'isfile', 'isdir')})

MODS = {
    'os': Shim(os, path=OSPATH),
    'os.path': OSPATH,
    'collections': Shim(collections, OrderedDict=s_OrderedDict),
    'io': Shim(io, StringIO=SymStream),
    're': ReShim(_re, sub=re_sub, match=re_find('match'), search=re_find('search'), fullmatch=re_find('fullmatch'),
                 compile=re_compile, split=re_split),
}
