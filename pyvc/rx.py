"""Regular expressions on ropes.  A pattern is matched exactly as re does (backtracking, in its order of preference), against
a text whose unknown parts are runs of one or more characters of a known alphabet.  A run is *uniform* for a character class
when all of its alphabet is in the class or none of it is; a class that is not uniform for a run, or a match that would begin,
end or be cut at an unknown place inside of a run, is outside of the engine (Unsupported), so that an answer holds for every
text of this shape."""
import re
import re._constants as K
import re._parser as P
import z3
from .core import Unsupported, ctx, mkbool
from .rope import SymStr, Atom, Dec, Flo, cat

DIGITS = frozenset('0123456789')


class Run:
    """one or more characters of an alphabet (exactly one: one=True)"""

    def __init__(self, piece, cs, one=False):
        self.piece, self.cs, self.one = piece, cs, one


def items(s):
    out = []
    for x in ((s,) if isinstance(s, str) else s.p):
        if isinstance(x, str):
            out.extend(x)
        elif isinstance(x, Atom):
            if x.charset is None:
                raise Unsupported('regular expression on an unknown text')
            if x.kind not in ('ident', 'expr', 'char', 'run1') and not bool(SymStr((x,))):
                continue                    # empty on this path
            out.append(Run(x, x.charset, x.kind == 'char'))
        elif isinstance(x, Flo):
            out.extend(float_items(x))
        elif isinstance(x, Dec):
            if bool(mkbool(x.z < 0)):
                out.append('-')
                x = Dec(-x.z)
            out.append(Run(x, DIGITS))
        else:
            raise Unsupported('regular expression on %r' % (x,))
    return out


class Part:
    """the k-th part of n of the rendering of a float"""

    def __init__(self, flo, k, n):
        self.flo, self.k, self.n = flo, k, n


def float_items(x):
    """repr() of a finite float: 12.5, 1e+20, 1.5e-07"""
    out = []
    if bool(mkbool(x.z < 0)):
        out.append('-')
        x = Flo(z3.simplify(-x.z))
    memo = ctx().float_shape
    key = x.z.sexpr()
    if key not in memo:
        memo[key] = ctx().choose(5)
    shape = ((DIGITS, '.', DIGITS), ('1', 'e', '+', DIGITS), ('1', 'e', '-', DIGITS), ('1', '.', DIGITS, 'e', '+', DIGITS),
             ('1', '.', DIGITS, 'e', '-', DIGITS))[memo[key]]
    for k, cs in enumerate(shape):
        out.append(Run(Part(x, k, len(shape)), DIGITS if cs == '1' else frozenset(cs), isinstance(cs, str)))
    return out


def text(its):
    out = []
    k = 0
    while k < len(its):
        i = its[k]
        if isinstance(i, str):
            out.append(i)
        elif isinstance(i.piece, Part):
            ps = [getattr(x, 'piece', None) for x in its[k:k + i.piece.n]]
            if not all(isinstance(p, Part) and p.flo is i.piece.flo and p.k == j for j, p in enumerate(ps)) or len(ps) < i.piece.n:
                raise Unsupported('a part of the rendering of a float')
            out.append(SymStr((i.piece.flo,)))
            k += i.piece.n - 1
        else:
            out.append(SymStr((i.piece,)))
        k += 1
    return cat(out)


def heads(s, n):
    """items, the first n of them single characters (fewer: the text is shorter)"""
    its = items(s)
    for k in range(n):
        if k >= len(its):
            break
        x = its[k]
        if isinstance(x, str) or x.one:
            continue
        if not isinstance(x.piece, Atom):
            raise Unsupported('part of an unknown text')
        z = x.piece.z
        first = Atom('%s[0]' % x.piece.name, 'char', z3.SubString(z, 0, 1), charset=x.cs)
        rest = Atom('%s[1:]' % x.piece.name, 'run', z3.SubString(z, 1, z3.Length(z) - 1), charset=x.cs)
        its[k:k + 1] = [Run(first, x.cs, True)] + ([Run(rest, x.cs)] if bool(SymStr((rest,))) else [])
    return its


def end(s, k):
    """the first (0) or last (-1) character of a text"""
    its = items(s)
    if not its:
        raise IndexError('string index out of range')
    x = its[k]
    if isinstance(x, str):
        return x
    if x.one and isinstance(x.piece, Atom):
        return SymStr((x.piece,))
    if isinstance(x.piece, Atom):
        z = x.piece.z
        z, name = z3.SubString(z, 0 if k == 0 else z3.Length(z) - 1, 1), '%s[%d]' % (x.piece.name, k)
    else:
        p = x.piece
        name = 'char(%s)[%d]' % ((p.flo if isinstance(p, Part) else p).z.sexpr(), k)
        z = z3.String(name)
    return SymStr((Atom(name, 'char', z, charset=x.cs),))


CAT = {K.CATEGORY_DIGIT: r'\d', K.CATEGORY_NOT_DIGIT: r'\D', K.CATEGORY_SPACE: r'\s', K.CATEGORY_NOT_SPACE: r'\S',
       K.CATEGORY_WORD: r'\w', K.CATEGORY_NOT_WORD: r'\W'}


def inclass(op, av, ch):
    if op is K.LITERAL:
        return ord(ch) == av
    if op is K.NOT_LITERAL:
        return ord(ch) != av
    if op is K.ANY:
        return ch != '\n'
    neg = False
    r = False
    for o, a in av:
        if o is K.NEGATE:
            neg = True
        elif o is K.LITERAL:
            r = r or ord(ch) == a
        elif o is K.RANGE:
            r = r or a[0] <= ord(ch) <= a[1]
        elif o is K.CATEGORY:
            r = r or re.match(CAT[a], ch) is not None
        else:
            raise Unsupported('character class %s' % o)
    return r != neg


SINGLE = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN)


def uniform(op, av, cs):
    r = {inclass(op, av, ch) for ch in cs}
    if len(r) != 1:
        raise Unsupported('a part of an unknown text is in a character class and a part is not')
    return r.pop()


class Rx:
    """positions: i = before item i; (i, 'in') = inside run i: characters of it before and after"""

    def __init__(self, pat, flags, its):
        if flags & ~re.UNICODE:
            raise Unsupported('flags of a regular expression')
        self.tree = P.parse(pat, 0)
        if self.tree.state.flags & ~re.UNICODE:
            raise Unsupported('flags of a regular expression')
        self.its = its

    def prev(self, pos):
        """alphabet of the character before"""
        if isinstance(pos, tuple):
            return self.its[pos[0]].cs
        if pos == 0:
            return None
        x = self.its[pos - 1]
        return frozenset(x) if isinstance(x, str) else x.cs

    def next(self, pos):
        i = pos[0] if isinstance(pos, tuple) else pos
        if i >= len(self.its):
            return None
        x = self.its[i]
        return frozenset(x) if isinstance(x, str) else x.cs

    def weak(self, node, pos):
        """the character after pos is in the class for some texts only"""
        cs = self.next(pos)
        return cs is not None and len({inclass(*node, ch) for ch in cs}) == 2

    def one(self, op, av, pos):
        """position after one character of the class, or None"""
        cs = self.next(pos)
        if cs is None or not uniform(op, av, cs):
            return None
        i = pos[0] if isinstance(pos, tuple) else pos
        x = self.its[i]
        if isinstance(x, str) or x.one:
            return i + 1
        raise Unsupported('a single character of an unknown text')

    def m(self, nodes, pos, g, k):
        if not nodes:
            return k(pos, g)
        (op, av), rest = nodes[0], nodes[1:]
        if op in SINGLE:
            if self.weak((op, av), pos):
                i = pos[0] if isinstance(pos, tuple) else pos
                x = self.its[i]
                after = [i + 1] if isinstance(x, str) or x.one else [i + 1, (i, 'in')]
                if any(self.m(rest, e, g, k) is not None for e in after):
                    raise Unsupported('a part of an unknown text is in a character class and a part is not')
                return None             # whether it is in the class or not: no match
            p = self.one(op, av, pos)
            return None if p is None else self.m(rest, p, g, k)
        if op is K.SUBPATTERN:
            n, add, dele, body = av
            if add or dele:
                raise Unsupported('flags of a regular expression')

            def after(p, g2):
                g2 = dict(g2)
                if n is not None:
                    g2[n] = (pos, p)
                return self.m(rest, p, g2, k)
            return self.m(list(body), pos, g, after)
        if op is K.BRANCH:
            for b in av[1]:
                r = self.m(list(b) + rest, pos, g, k)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, body = av
            body = list(body)
            if op is K.MAX_REPEAT and len(body) == 1 and body[0][0] in SINGLE:
                return self.run(body[0], lo, hi, rest, pos, g, k)
            if op is K.MIN_REPEAT:
                raise Unsupported('lazy repetition')
            return self.rep(body, lo, hi, 0, rest, pos, g, k)
        if op is K.AT:
            return self.m(rest, pos, g, k) if self.at(av, pos) else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, body = av
            if d > 0:
                r = self.m(list(body), pos, g, lambda p, g2: (p, g2))
            else:
                if len(body) != 1 or body[0][0] not in SINGLE:
                    raise Unsupported('look-behind')
                cs = self.prev(pos)
                r = True if cs is not None and uniform(*body[0], cs) else None
            if (r is not None) == (op is K.ASSERT):
                return self.m(rest, pos, g, k)
            return None
        raise Unsupported('regular expression: %s' % op)

    def rep(self, body, lo, hi, n, rest, pos, g, k):
        if hi is K.MAXREPEAT or n < hi:
            def again(p, g2):
                if p == pos:
                    return None
                return self.rep(body, lo, hi, n + 1, rest, p, g2, k)
            r = self.m(body, pos, g, again)
            if r is not None:
                return r
        return self.m(rest, pos, g, k) if n >= lo else None

    def run(self, node, lo, hi, rest, pos, g, k):
        """greedy repetition of a character class: the furthest end first, then back"""
        ends = [pos] if lo == 0 else []
        n = 0           # characters certainly consumed
        p = pos
        endless = hi is K.MAXREPEAT
        while endless or n < hi:
            cs = self.next(p)
            if cs is not None and self.weak(node, p):
                # the run of the class may end anywhere in this unknown text, or go on after it
                i = p[0] if isinstance(p, tuple) else p
                if self.some_end(node, i, rest, g, k):
                    raise Unsupported('a part of an unknown text is in a character class and a part is not')
                break
            if cs is None or not uniform(*node, cs):
                break
            i = p[0] if isinstance(p, tuple) else p
            x = self.its[i]
            if isinstance(x, str) or x.one:
                n += 1
            else:
                if not endless:
                    raise Unsupported('a bounded repetition over an unknown text')
                if n + 1 < lo:
                    raise Unsupported('a repetition of more than once over an unknown text')
                ends.append((i, 'in'))
                n += 1
            p = i + 1
            if n >= lo:
                ends.append(p)
        for e in reversed(ends):
            if e == (pos if isinstance(pos, tuple) else None):
                pass
            r = self.m(rest, e, g, k)
            if r is not None:
                return r
        return None

    def some_end(self, node, i, rest, g, k):
        """a repetition that enters item i might end there or after it so that the rest matches"""
        while True:
            x = self.its[i]
            if not isinstance(x, str) and not x.one and self.m(rest, (i, 'in'), g, k) is not None:
                return True
            i += 1
            if self.m(rest, i, g, k) is not None:
                return True
            if i >= len(self.its) or not any(inclass(*node, ch) for ch in self.next(i)):
                return False

    def at(self, where, pos):
        if where in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            return pos == 0
        if where in (K.AT_END, K.AT_END_STRING):
            if isinstance(pos, tuple):
                return False
            if pos == len(self.its):
                return True
            if where is K.AT_END and pos == len(self.its) - 1:
                x = self.its[pos]
                if isinstance(x, str):
                    return x == '\n'
                if '\n' in x.cs:
                    raise Unsupported('$ before an unknown text')
            return False
        if where in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            def word(cs):
                return cs is not None and uniform(K.IN, [(K.CATEGORY, K.CATEGORY_WORD)], cs)
            return (word(self.prev(pos)) != word(self.next(pos))) == (where is K.AT_BOUNDARY)
        raise Unsupported('regular expression: %s' % where)

    def match(self, pos=0, full=False):
        def end(p, g):
            if full and p != len(self.its):
                if isinstance(p, tuple):
                    return None
                return None
            if isinstance(p, tuple):
                raise Unsupported('a match that ends inside of an unknown text')
            return p, g
        return self.m(list(self.tree), pos, {}, end)

    def search(self, start=0):
        """the first place that matches: (begin, end, groups)"""
        for i in range(start, len(self.its) + 1):
            r = self.match(i)
            if r is not None:
                return (i,) + r
            if i < len(self.its) and not isinstance(self.its[i], str) and not self.its[i].one:
                if self.match((i, 'in')) is not None:
                    raise Unsupported('a match that begins inside of an unknown text')
        return None


class Match:
    def __init__(self, rx, a, b, g):
        self.rx, self.a, self.b, self.g = rx, a, b, g

    def group(self, *ns):
        if len(ns) > 1:
            return tuple(self.group(n) for n in ns)
        n = ns[0] if ns else 0
        if isinstance(n, str):
            n = self.rx.tree.state.groupdict[n]
        if n == 0:
            return text(self.rx.its[self.a:self.b])
        if n >= self.rx.tree.state.groups:
            raise IndexError('no such group')
        if n not in self.g:
            return None
        a, b = self.g[n]
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('a group inside of an unknown text')
        return text(self.rx.its[a:b])

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.group(i) is None else self.group(i) for i in range(1, self.rx.tree.state.groups))

    def __bool__(self):
        return True


def match(pat, s, flags=0, full=False):
    rx = Rx(pat, flags, items(s))
    r = rx.match(0, full)
    return None if r is None else Match(rx, 0, *r)


def search(pat, s, flags=0):
    rx = Rx(pat, flags, items(s))
    r = rx.search()
    return None if r is None else Match(rx, *r)


def sub(pat, rep, s, count=0, flags=0):
    rx = Rx(pat, flags, items(s))
    out = []
    pos = 0
    n = 0
    tpl = None if callable(rep) else P.parse_template(rep, re.compile(pat))
    while not count or n < count:
        r = rx.search(pos)
        if r is None:
            break
        a, b, g = r
        if a == b:
            raise Unsupported('substitution of nothing')
        m = Match(rx, a, b, g)
        out.append(text(rx.its[pos:a]))
        if tpl is None:
            out.append(rep(m))
        else:
            for t in tpl:
                out.append(t if isinstance(t, str) else m.group(t) or '')
        pos = b
        n += 1
    out.append(text(rx.its[pos:]))
    return cat(out)


class Pattern:
    """a compiled pattern"""

    def __init__(self, pat, flags, real):
        self.pattern, self.flags_, self.real = pat, flags, real

    def _do(self, name, f, s, *a):
        if isinstance(s, SymStr):
            if a:
                raise Unsupported('part of an unknown text')
            return f(self.pattern, s, self.flags_)
        return getattr(self.real, name)(s, *a)

    def match(self, s, *a):
        return self._do('match', match, s, *a)

    def fullmatch(self, s, *a):
        return self._do('fullmatch', lambda p, x, f: match(p, x, f, True), s, *a)

    def search(self, s, *a):
        return self._do('search', search, s, *a)

    def sub(self, rep, s, count=0):
        if isinstance(s, SymStr):
            return sub(self.pattern, rep, s, count, self.flags_)
        return self.real.sub(rep, s, count)

    def __getattr__(self, n):
        return getattr(self.__dict__['real'], n)
