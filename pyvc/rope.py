"""Symbolic strings: ropes of literal text, atoms (z3 string constants with an assumed
character class), decimal renderings of integers and repetitions (loop output)."""
import string
import z3
from .core import (Sym, SymInt, SymBool, SymFloat, Unsupported, ctx, mkbool, toint, is_sym)

IDENT = frozenset(string.ascii_letters + string.digits + '_')


class AllBut:
    """alphabet: every character but these"""

    def __init__(self, *excluded):
        self.ex = frozenset(''.join(excluded))

    def __contains__(self, ch):
        return ch not in self.ex

    def __and__(self, o):
        return frozenset(o) - self.ex
    __rand__ = __and__

    def __le__(self, o):
        return False

    def __iter__(self):
        raise Unsupported('the characters of an open alphabet')

    def isdisjoint(self, o):
        return not self & o


RUNS = ('run', 'run1', 'char')      # parts of texts that are read character by character: no fact about them is given to the solver


class Atom:
    """an unknown string.  kind: 'ident' (non-empty C identifier), 'expr' (a generated type
    expression, product level), 'text' (anything), 'line' (no newline)"""
    __slots__ = ('z', 'kind', 'name', 'charset', 'esc')

    def __init__(self, name, kind, z_=None, charset=None, esc=None):
        self.name, self.kind = name, kind
        self.esc = esc          # not None: backslashes are doubled, and these quotes follow a backslash of their own
        self.z = z3.String(name) if z_ is None else z_
        self.charset = charset if charset is not None else (IDENT if kind == 'ident' else None)

    def __eq__(self, o):
        return isinstance(o, Atom) and self.z.eq(o.z)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<%s>' % self.name


class Dec:
    """decimal rendering of an integer"""
    __slots__ = ('z', 'hexa')

    def __init__(self, z_):
        self.z = z_

    def __eq__(self, o):
        return isinstance(o, Dec) and self.z.eq(o.z)

    def __hash__(self):
        return self.z.hash()

    def __repr__(self):
        return '<dec %s>' % self.z


class Flo:
    """repr() of a finite float"""
    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_

    def __eq__(self, o):
        return isinstance(o, Flo) and self.z.eq(o.z)

    def __hash__(self):
        return self.z.hash()

    def __repr__(self):
        return '<float %s>' % self.z


class Quoted:
    """repr() of a string"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Quoted) and self.s.same(o.s)

    def __hash__(self):
        return 7

    def __repr__(self):
        return '<repr %r>' % self.s


class Rep:
    """output of a loop: for every element of seq, in order, the text of the case that applies"""
    __slots__ = ('seg', 'cases')

    def __init__(self, seg, cases):
        self.seg, self.cases = seg, cases   # cases: [(guards, text)]

    def __repr__(self):
        return '<rep %s %r>' % (self.seg.seq.name, self.cases)


class Join:
    """sep.join(list) with segments among the items"""
    __slots__ = ('sep', 'parts')

    def __init__(self, sep, parts):
        self.sep, self.parts = sep, parts

    def __repr__(self):
        return '<join %r %r>' % (self.sep, self.parts)

    def safe(self, ch):
        """none of the joined strings can contain the character"""
        from .values import Seg, shapes
        for p in self.parts:
            vals = [p]
            if isinstance(p, Seg):
                if p.rng is not None:
                    raise Unsupported('split of a partial list')
                if p.cases is not None:
                    vals = [v for k in p.cases for v in k.values]
                else:
                    vals = []
                    for _, v in shapes(p.seq, p.seq.fresh_tag('j')):
                        for f in p.maps:
                            v = f(v, None)
                        vals.append(v)
            for v in vals:
                if not isinstance(v, (str, SymStr)) or lift(v).may_contain(ch) is not False:
                    raise Unsupported('split of unknown strings')

    def split(self):
        """the joined strings, when none of them can contain the separator"""
        from .values import IList, Seg
        self.safe(self.sep[0])
        if not self.parts:
            return IList([''])
        if all(isinstance(p, Seg) for p in self.parts):
            raise Unsupported('split of a possibly empty list')
        return IList(list(self.parts))


class Obj:
    """str() of an arbitrary object"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __eq__(self, o):
        return isinstance(o, Obj) and self.o is o.o

    def __hash__(self):
        return id(self.o)


def lift(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str):
        return SymStr((x,) if x else ())
    raise Unsupported('not a string: %r' % (x,))


def plain(x):
    """constants and lists of constants"""
    if type(x) in (list, tuple):
        return all(map(plain, x))
    return type(x) in (str, int, float, bool, type(None), bytes)


def to_text(x):
    """str(x) as a rope"""
    if isinstance(x, (SymStr, str)):
        return x
    if isinstance(x, SymInt):
        return SymStr((Dec(x.z),))
    if isinstance(x, SymFloat):
        return SymStr((Flo(x.z),))
    if isinstance(x, SymBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, (int, float, bool, type(None), bytes)):
        return str(x)
    from .values import IList
    if isinstance(x, IList):
        return x.sym_str()
    if plain(x):
        return str(x)
    f = getattr(type(x), '__str__', None)
    if getattr(x, '_vc_str', None) is not None:
        return x._vc_str()
    if f is not None and f is not object.__str__:
        r = f(x)
        return r
    return SymStr((Obj(x),))


def cat(parts):
    out = []
    for p in parts:
        for q in ((p,) if isinstance(p, str) else p.p):
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def piece_z3(p):
    if isinstance(p, str):
        return z3.StringVal(p)
    if isinstance(p, Atom):
        return p.z
    if isinstance(p, Dec):
        return z3.If(p.z >= 0, z3.IntToStr(p.z), z3.Concat(z3.StringVal('-'), z3.IntToStr(-p.z)))
    if isinstance(p, Flo):
        return z3.Function('float_repr', z3.RealSort(), z3.StringSort())(p.z)
    if isinstance(p, Quoted):
        return z3.Function('py_repr', z3.StringSort(), z3.StringSort())(lift(p.s).to_z3())
    raise Unsupported('no solver term for %r' % (p,))


class SymStr(Sym):
    __slots__ = ('p',)

    def __init__(self, pieces):
        self.p = tuple(pieces)

    def to_z3(self):
        zs = [piece_z3(x) for x in self.p]
        if not zs:
            return z3.StringVal('')
        return zs[0] if len(zs) == 1 else z3.Concat(*zs)

    def __repr__(self):
        return 'SymStr(%s)' % (self.p,)

    def same(self, o):
        return isinstance(o, SymStr) and self.p == o.p

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    # ---- comparison
    def __eq__(self, o):
        if isinstance(o, str):
            o = lift(o)
        if not isinstance(o, SymStr):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, bool):
            return not r
        return mkbool(z3.Not(r.z))

    def _lex(self, o):
        raise Unsupported('ordering of symbolic strings')
    __lt__ = __gt__ = __le__ = __ge__ = _lex

    # ---- building
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return cat([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return cat([o, self])

    def __mod__(self, args):
        from .hooks import fmt_percent
        return fmt_percent(self, args)

    def __str__(self):
        raise Unsupported('str() of a symbolic string outside instrumented code')

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string outside instrumented code')

    def __len__(self):
        raise Unsupported('len() of a symbolic string outside instrumented code')

    def sym_len(self):
        return SymInt(z3.Length(self.to_z3()))

    def __bool__(self):
        for x in self.p:
            if isinstance(x, str) and x or isinstance(x, (Dec, Flo)) or isinstance(x, Quoted):
                return True
            if isinstance(x, Atom) and x.kind in ('ident', 'expr', 'char', 'run1'):
                return True
        if not self.p:
            return False
        if all(isinstance(x, Atom) and x.kind == 'run' for x in self.p):
            for x in self.p:
                if bool(SymBool(z3.Bool('nonempty(%s)' % x.z.sexpr()))):
                    return True
            return False
        if any(isinstance(x, (Rep, Join)) for x in self.p):
            for x in self.p:
                if isinstance(x, Join) and any(isinstance(p, str) and p for p in x.parts):
                    return True
            # either may be the case
            c = ctx()
            c.havoced = True
            return bool(SymBool(z3.Bool('nonempty(%r)' % (self.p,))))
        return bool(SymBool(self.to_z3() != z3.StringVal('')))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def may_contain(self, ch):
        """can the character occur?  None: unknown"""
        unk = False
        for x in self.p:
            if isinstance(x, str):
                if ch in x:
                    return True
            elif isinstance(x, Atom):
                if x.charset is None:
                    unk = True
                elif ch in x.charset:
                    unk = True
            elif isinstance(x, Dec):
                if ch in '-0123456789':
                    unk = True
            elif isinstance(x, Flo):
                if ch in '-+.e0123456789':
                    unk = True
            else:
                unk = True
        return None if unk else False

    def __contains__(self, s):
        r = self.contains(s)
        return bool(r)

    def contains(self, s):
        if isinstance(s, str):
            if s == '':
                return True
            if any(isinstance(x, str) and s in x for x in self.p):
                return True
            # s among the literal text only: also with every unknown part empty?
            if all(isinstance(x, str) or isinstance(x, (Atom, Dec, Flo)) and not any(
                    SymStr((x,)).may_contain(ch) is not False for ch in s) for x in self.p) and \
                    s not in ''.join(x for x in self.p if isinstance(x, str)):
                return False
            # a character of s that cannot occur anywhere
            for ch in s:
                if self.may_contain(ch) is False:
                    return False
        return mkbool(z3.Contains(self.to_z3(), lift(s).to_z3()))

    def startswith(self, s):
        if isinstance(s, tuple):
            r = False
            for x in s:
                if self.startswith(x):
                    return True
            return False
        if isinstance(s, str) and self.p and isinstance(self.p[0], str):
            f = self.p[0]
            if f.startswith(s):
                return True
            if not s.startswith(f):
                return False
        elif isinstance(s, str) and s and self.p and isinstance(self.p[0], Atom) and self.p[0].charset is not None \
                and self.p[0].kind in ('ident', 'char', 'run1') and s[0] not in self.p[0].charset:
            return False
        return bool(mkbool(z3.PrefixOf(lift(s).to_z3(), self.to_z3())))

    def endswith(self, s):
        if isinstance(s, str) and self.p and isinstance(self.p[-1], str):
            f = self.p[-1]
            if f.endswith(s):
                return True
            if not s.endswith(f):
                return False
        return bool(mkbool(z3.SuffixOf(lift(s).to_z3(), self.to_z3())))

    def replace(self, a, b, *n):
        if n:
            raise Unsupported('replace with a count')
        out = []
        for x in self.p:
            if isinstance(x, str):
                out.append(x.replace(a, b) if isinstance(b, str) else None)
                if out[-1] is None:
                    bits = x.split(a)
                    out.pop()
                    for i, t in enumerate(bits):
                        if i:
                            out.append(b)
                        out.append(t)
            elif isinstance(x, Rep) and len(a) == 1:
                out.append(SymStr((Rep(x.seg, [(g, t.replace(a, b)) for g, t in x.cases]),)))
            elif isinstance(x, Join) and len(a) == 1:
                out.append(SymStr((Join(x.sep.replace(a, b), [p.map(lambda v, i: v.replace(a, b)) if type(p).__name__ == 'Seg' else p.replace(a, b)
                                                              for p in x.parts]),)))
            elif isinstance(x, Atom) and x.charset is not None and any(c not in x.charset for c in a):
                out.append(SymStr((x,)))
            elif isinstance(x, (Dec, Flo)) and any(SymStr((x,)).may_contain(c) is False for c in a):
                out.append(SymStr((x,)))
            elif isinstance(x, Atom) and x.kind in ('ident', 'text', 'line') and isinstance(b, str) and a and \
                    not any(isinstance(y, (Rep, Join, Obj)) for y in self.p):
                # the whole text: an occurrence may span several pieces
                z = _replace_all(self.to_z3(), a, b)
                word = all(c == '_' or c.isalnum() for y in self.p if isinstance(y, str) for c in y) and \
                    all(isinstance(y, str) or isinstance(y, Atom) and y.kind == 'ident' for y in self.p) and \
                    b.isidentifier() and a.isidentifier()
                esc = None
                if len(self.p) == 1:
                    if a == '\\' and b == '\\\\':
                        esc = frozenset()
                    elif a in ('"', "'") and b == '\\' + a and x.esc is not None:
                        esc = x.esc | {a}
                return SymStr((Atom('replaced', 'ident' if word else 'text' if '\n' in b else x.kind if x.kind != 'ident' else 'line', z, esc=esc),))
            else:
                raise Unsupported('replace in an unknown string')
        # occurrences across pieces
        if len(a) > 1:
            flat = cat([SymStr((x,)) if not isinstance(x, str) else x for x in self.p])
            for i, x in enumerate(self.p):
                if isinstance(x, str) and i + 1 < len(self.p) or i and isinstance(x, str):
                    pass
            for ch in a:
                if all(not (isinstance(x, Atom) and (x.charset is None or ch in x.charset)) for x in self.p):
                    break
            else:
                raise Unsupported('replace across pieces')
        return cat(out)

    def strip(self, *a):
        if self.p and isinstance(self.p[0], str) and isinstance(self.p[-1], str) and not a:
            p = list(self.p)
            p[0] = p[0].lstrip()
            p[-1] = p[-1].rstrip()
            if p[0] and p[-1]:
                return SymStr(tuple(p))
        if not a and all(isinstance(x, (Atom, Dec)) and (isinstance(x, Dec) or x.charset is not None and not (x.charset & set(' \t\n\r')))
                         for x in (self.p[0], self.p[-1])):
            return self
        raise Unsupported('strip')

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            from .hooks import split_space
            r = split_space(self)
            if any(isinstance(x, str) and not x.strip() for x in r.parts):
                raise Unsupported('split of a string with white space at its ends')
            return r
        if len(self.p) == 1 and isinstance(self.p[0], Join) and self.p[0].sep == sep and maxsplit < 0:
            return self.p[0].split()
        if len(sep) != 1 and any(not isinstance(x, str) and self.may_contain(sep[0]) is not False for x in self.p):
            pass
        out = [[]]
        n = 0
        for x in self.p:
            if isinstance(x, str):
                rest = x
                while True:
                    if maxsplit >= 0 and n >= maxsplit:
                        break
                    i = rest.find(sep)
                    if i < 0:
                        break
                    out[-1].append(rest[:i])
                    out.append([])
                    rest = rest[i + len(sep):]
                    n += 1
                out[-1].append(rest)
            else:
                if maxsplit >= 0 and n >= maxsplit:
                    out[-1].append(SymStr((x,)))
                    continue
                if SymStr((x,)).may_contain(sep[0]) is not False and SymStr((x,)).may_contain(sep[-1]) is not False:
                    if maxsplit >= 0:
                        raise Unsupported('split of an unknown string')
                    from .values import IList, Fields
                    i = next(i for i, y in enumerate(self.p) if y is x)
                    return IList([cat(y) for y in out[:-1]] + [Fields(sep, cat(out[-1] + [SymStr(tuple(self.p[i:]))]))])
                out[-1].append(SymStr((x,)))
        from .values import IList
        return IList([cat(x) for x in out])

    def partition(self, sep):
        r = list(self.split(sep, 1).parts)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, '', '')

    def rpartition(self, sep):
        r = list(self.split(sep).parts)
        return ('', '', self) if len(r) == 1 else (cat([x for i, b in enumerate(r[:-1]) for x in ([sep, b] if i else [b])]), sep, r[-1])

    def encode(self, *a):
        raise Unsupported('encode')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise Unsupported('string method %s' % name)

    def __getitem__(self, i):
        if isinstance(i, int) and self.p:
            if i >= 0 and isinstance(self.p[0], str) and i < len(self.p[0]):
                return self.p[0][i]
            if i < 0 and isinstance(self.p[-1], str) and -i <= len(self.p[-1]):
                return self.p[-1][i]
            if i == 0 and len(self.p) == 1 and isinstance(self.p[0], Atom):
                # first character of an atom
                return SymStr((Atom('%s[0]' % self.p[0].name, 'char', z3.SubString(self.p[0].z, 0, 1),
                                    charset=self.p[0].charset),))
        if isinstance(i, slice) and i.step is None:
            a, b = i.start or 0, i.stop
            if a >= 0 and b is None and self.p and isinstance(self.p[0], str) and a <= len(self.p[0]):
                return cat([self.p[0][a:]] + [SymStr((x,)) if not isinstance(x, str) else x for x in self.p[1:]])
            if b is not None and a >= 0 and b >= 0 and self.p and isinstance(self.p[0], str) and b <= len(self.p[0]):
                return self.p[0][a:b]
        if isinstance(i, slice) and i.step is None and self.p:
            a, b = i.start or 0, i.stop
            p = list(self.p)
            if b is not None and b < 0 and isinstance(p[-1], str) and len(p[-1]) >= -b and len(p) > 1:
                p[-1] = p[-1][:b]
                b = None
            if b is None and a >= 0 and isinstance(p[0], str) and len(p[0]) >= a:
                p[0] = p[0][a:]
                return cat([x if isinstance(x, str) else SymStr((x,)) for x in p])
            if b is not None and a >= 0 and b >= 0:
                from . import rx
                return rx.text(rx.heads(self, b)[a:b])
        if i in (0, -1) and isinstance(i, int):
            from . import rx
            return rx.end(self, i)
        if isinstance(i, int) and i >= 0:
            from . import rx
            h = rx.heads(self, i + 1)
            if len(h) <= i:
                raise IndexError('string index out of range')
            return rx.text(h[i:i + 1])
        raise Unsupported('index into a symbolic string')


def _replace_all(z, a, b):
    ctx = z.ctx
    a, b = z3.StringVal(a, ctx), z3.StringVal(b, ctx)
    return z3.SeqRef(z3.Z3_mk_seq_replace_all(ctx.ref(), z.as_ast(), a.as_ast(), b.as_ast()), ctx)


def _digits_only(s):
    return s.isdigit()


def str_eq(a, b):
    """equality of two ropes: bool or SymBool"""
    pa, pb = list(a.p), list(b.p)
    # common prefix
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
        elif not isinstance(x, (str, Rep, Join)) and type(x) is type(y) and x == y:
            pa.pop(0)
            pb.pop(0)
        elif x is y:
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa[-1], pb[-1] = x[:-n], y[:-n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
        elif not isinstance(x, (str, Rep, Join)) and type(x) is type(y) and x == y:
            pa.pop()
            pb.pop()
        elif x is y:
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    for u, v in ((pa, pb), (pb, pa)):
        if not u:
            # everything in v must be empty
            for x in v:
                if isinstance(x, str) or isinstance(x, (Dec, Flo, Quoted)) or isinstance(x, Atom) and x.kind in ('ident', 'char', 'run1'):
                    return False
            if all(isinstance(x, Atom) and x.kind == 'run' for x in v):
                return mkbool(z3.Not(z3.Or(*[z3.Bool('nonempty(%s)' % x.z.sexpr()) for x in v])))
    # literal against unknown parts of a known alphabet
    for u, v in ((pa, pb), (pb, pa)):
        if v and all(isinstance(x, str) for x in v) and u and not any(isinstance(x, (Rep, Join, Obj)) for x in u):
            t = ''.join(v)
            w = SymStr(tuple(u))
            if t and any(w.may_contain(ch) is False for ch in t):
                return False
            for end in (0, -1):
                x = u[end]
                if t and (isinstance(x, Atom) and x.kind in ('ident', 'char', 'run1') or isinstance(x, (Dec, Flo))) and \
                        SymStr((x,)).may_contain(t[end]) is False:
                    return False
            if sum(1 for x in u if not isinstance(x, Atom) or x.kind in ('ident', 'expr', 'char', 'run1')) > len(t):
                return False
    for u, v in ((pa, pb), (pb, pa)):
        if len(u) == 1 and isinstance(u[0], Atom) and u[0].charset is not None and all(isinstance(x, str) for x in v):
            t = ''.join(v)
            if any(ch not in u[0].charset for ch in t):
                return False
        if len(u) == 1 and isinstance(u[0], Dec) and all(isinstance(x, str) for x in v):
            t = ''.join(v)
            try:
                n = int(t)
            except ValueError:
                return False
            if str(n) != t:
                return False
            return mkbool(u[0].z == n)
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Dec) and isinstance(pb[0], Dec):
        return mkbool(pa[0].z == pb[0].z)
    for x in pa + pb:
        if isinstance(x, Obj):
            raise Unsupported('comparison of loop output')
        if isinstance(x, (Rep, Join)):
            if not (all(isinstance(y, str) for y in pa) or all(isinstance(y, str) for y in pb)):
                raise Unsupported('comparison of loop output')
            # either may be the case
            c = ctx()
            c.havoced = True
            return mkbool(z3.Bool('equal(%r, %r)' % (pa, pb)))
    return mkbool(SymStr(tuple(pa)).to_z3() == SymStr(tuple(pb)).to_z3())
