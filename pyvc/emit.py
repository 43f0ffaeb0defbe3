"""Reading of generated text: the (symbolic) text a generator function printed, parsed by the Python
grammar into plain values that a postcondition can compare.

Unknown parts of the text are replaced by placeholder identifiers before parsing (an identifier or an
expression atom by a name, a decimal rendering by a name that reads back as the integer, a repr() by a
name that reads back as the string).  Loop output inside a display becomes one starred placeholder after
the text of every case has been checked to be complete items `(expr ,)*` on their own; loop output between
statements becomes a placeholder statement after the text of every case has been checked to be complete
lines of statements on their own.  The grammar then gives the reading for any number of repetitions.

Values: ('name', s) ('attr', base, s) ('call', f, [args], [(kw, value)]) ('bin', op, l, r) ('neg', x)
('star', x) ('tuple', [..]) ('list', [..]) ('dict', [(k, v)..]) ('sub', base, index) or a constant
(int, float, str, bytes, bool, None, SymInt, SymStr).
Statements: ('=', target, value) ('expr', v) ('class', name, [bases], [body]) ('def', name, src)
('try', [body], [(exc, [body])]) ('pass',) ('import', ..) ('aug', ..)"""
import ast
import io
import re
import textwrap
import tokenize
from . import rx
from .core import SymInt, SymFloat, Unsupported, ctx
from .rope import IDENT, SymStr, Atom, Dec, Flo, Quoted, Rep, Join, Obj, cat, lift
from .values import IList, Seg, Hidden, Case, derived

NUMERIC = frozenset('0123456789abcdefABCDEF')
PH = re.compile(r'_vc([a-z])(\d+)_')


class BadText(Exception):
    """the text is not the Python text the property asks for"""


class Reader:
    def __init__(self):
        self.ph = {}
        self.n = 0
        self.comments = []

    def new(self, letter, what):
        self.n += 1
        k = '_vc%s%d_' % (letter, self.n)
        self.ph[k] = (letter, what)
        return k

    # ------------------------------------------------------------ text with placeholders
    def lower(self, rope):
        pieces = [rope] if isinstance(rope, str) else list(rope.p) if isinstance(rope, SymStr) else None
        if pieces is None:
            raise BadText('not a text: %r' % (rope,))
        out = ''
        pieces = pieces[::-1]
        while pieces:
            p = pieces.pop()
            if isinstance(p, Atom) and p.kind not in ('ident', 'expr') and p.charset is not None and p.charset <= NUMERIC and \
                    not quote_state(out):
                out = self.number(out, p, pieces)
                continue
            if isinstance(p, str):
                if '_vc' in p and PH.search(p):
                    raise Unsupported('placeholder in the text')
                out += p
            elif isinstance(p, Atom):
                q = quote_state(out)
                if q == '#':
                    if not nonl(p):
                        raise BadText('unknown text in a comment may contain a newline: %r' % (p,))
                    out += self.new('t', p)
                elif q:
                    if not string_text(p, q):
                        raise BadText('unknown text inside a string literal: %r' % (p,))
                    out += self.new('a', p)
                elif p.kind == 'ident':
                    out += self.new('a', p)
                elif p.kind == 'expr':
                    if out and (out[-1].isalnum() or out[-1] == '_'):
                        raise BadText('expression glued to %r' % out[-10:])
                    out += self.new('x', p)
                else:
                    raise BadText('unknown text %r used as code' % (p,))
            elif isinstance(p, Dec):
                out += self.new('d', p)
            elif isinstance(p, Flo):
                out += self.new('t' if quote_state(out) else 'n', p if quote_state(out) else SymFloat(p.z))
            elif isinstance(p, Quoted):
                if quote_state(out) == '#':
                    out += self.new('t', p)
                else:
                    out += self.new('q', p)
            elif isinstance(p, Rep):
                out = self.rep(out, p)
            elif isinstance(p, Join):
                out = self.join(out, p)
            elif isinstance(p, Obj):
                raise BadText('text of an object %r' % (p.o,))
            else:
                raise Unsupported('text piece %r' % (p,))
        return out

    def number(self, out, p, pieces):
        """a number with unknown digits: the longest token, read by the grammar of Python"""
        from .hooks import str_to_int, str_to_float
        if not bool(SymStr((p,))):
            return out                      # empty
        k = len(out)
        while k and (out[k - 1].isalnum() or out[k - 1] in '_.'):
            k -= 1
        m = re.search(r'(?<![0-9a-zA-Z_.])[0-9.][0-9.]*[eE][+-]$', out[:k])
        if m:
            k = m.start()
        head, tok = out[:k], out[k:]
        if PH.search(tok) or tok[:1].isalpha() or tok[:1] == '_':
            if not p.charset <= IDENT or tok[-1] == '.':
                raise Unsupported('unknown text after a name')
            return out + self.new('a', p)
        tok = ([tok] if tok else []) + [SymStr((p,))]
        while pieces:
            q = pieces[-1]
            if isinstance(q, str):
                m = re.match(r'[0-9a-zA-Z_.]*', q)
                j = m.end()
                last = m.group(0)[-1:]
                if q[j:j + 1] in ('+', '-') and last in ('e', 'E') and j and \
                        rx.match(r'(0[xX])', cat(tok)) is None:
                    j += 1
                if not j:
                    break
                pieces.pop()
                tok.append(q[:j])
                if q[j:]:
                    pieces.append(q[j:])
                    if last in ('e', 'E') and q[j - 1] in '+-':
                        continue
                    break
            elif isinstance(q, Atom) and q.charset is not None and q.charset <= NUMERIC:
                pieces.pop()
                if bool(SymStr((q,))):
                    tok.append(SymStr((q,)))
            elif isinstance(q, Atom) or isinstance(q, Dec):
                raise Unsupported('unknown text after a number')
            else:
                break
        t = cat(tok)
        for base, pat in ((10, r'0+|[1-9][0-9]*'), (16, r'0[xX][0-9a-fA-F]+'), (8, r'0[oO][0-7]+'), (2, r'0[bB][01]+')):
            if rx.match(pat, t, 0, True) is not None:
                return head + self.new('n', str_to_int(t, base))
        if rx.match(r'([0-9]+\.[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+', t, 0, True) is not None:
            return head + self.new('n', str_to_float(t))
        raise BadText('not a Python number: %r' % (t,))

    def rep(self, out, p):
        q = quote_state(out)
        texts = [(g, t) for g, t in p.cases]
        if q == '#':
            for g, t in texts:
                if not line_text(t):
                    raise BadText('repeated text in a comment may contain a newline: %r' % (t,))
            return out + self.new('t', p)
        if q:
            if not all(string_text(t, q) for g, t in texts):
                raise BadText('repeated text inside a string literal')
            return out + self.new('t', p)
        b = bracket(out)
        if b in ('[', '(', '{'):
            cases = []
            for g, t in texts:
                s = self.lower(t)
                if not s.strip() or only_comment(s):
                    cases.append(Case(g, []))
                    continue
                if b == '{':
                    node = self.parse('{%s}' % s, 'eval')
                    vals = self.value(node)
                    if vals[0] != 'dict':
                        raise BadText('items of a display: %r' % s)
                    vals = [('item',) + tuple(x) for x in vals[1].parts]
                else:
                    node = self.parse('[%s]' % s, 'eval')
                    self.parse('[%s 0]' % s, 'eval')         # ends with a comma
                    vals = list(self.value(node)[1].parts)
                if s and not nl_ok(s):
                    raise BadText('comment without a newline in repeated text')
                cases.append(Case(g, vals))
            seg = Seg(p.seg.seq, p.seg.tag, cases, p.seg.rng)
            return out + ('**' if b == '{' else '*') + self.new('r', seg) + ', '
        # statements
        if out and not out.endswith('\n'):
            raise BadText('repeated text does not start on a line of its own')
        cases = []
        indent = None
        for g, t in texts:
            s = self.lower(t)
            if s == '':
                cases.append(Case(g, []))
                continue
            if not s.endswith('\n'):
                raise BadText('repeated text does not end its line: %r' % s[-60:])
            first = [x for x in s.splitlines() if x.strip() and not x.strip().startswith('#')]
            if first:
                ind = first[0][:len(first[0]) - len(first[0].lstrip())]
                if indent is not None and ind != indent:
                    raise BadText('repeated text of different indentation')
                indent = ind
            mod = self.parse('if 1:\n' + s if indent else s, 'exec')
            body = mod.body[0].body if indent else mod.body
            cases.append(Case(g, list(self.stmts(body).parts)))
        seg = Seg(p.seg.seq, p.seg.tag, cases, p.seg.rng)
        return out + (indent or '') + self.new('r', seg) + '\n'

    def join(self, out, p):
        q = quote_state(out)
        if q == '#':
            if '\n' in (p.sep if isinstance(p.sep, str) else '\n'):
                raise BadText('newline in a comment')
            for x in p.parts:
                for t in ([v for k in derived(x).cases for v in k.values] if isinstance(x, Seg) else [x]):
                    if not line_text(t):
                        raise BadText('repeated text in a comment may contain a newline: %r' % (t,))
            return out + self.new('t', p)
        if q:
            if not all(string_text(t, q) for x in [p.sep] + list(p.parts)
                       for t in ([v for k in derived(x).cases for v in k.values] if isinstance(x, Seg) else [x])):
                raise BadText('repeated text inside a string literal')
            return out + self.new('t', p)
        if isinstance(p.sep, str) and p.sep and not p.sep.strip(' ') and all(c == '\n' for c in p.sep) is False and p.sep == '\n':
            pass
        if p.sep == '\n':
            return self.join_lines(out, p)
        if not isinstance(p.sep, str) or p.sep.strip() != ',':
            raise Unsupported('join with %r' % (p.sep,))
        b = bracket(out)
        if not b:
            raise BadText('joined items outside a display')
        items = []
        empty = True
        for x in p.parts:
            if isinstance(x, Seg):
                x = derived(x)
                cases = []
                for k in x.cases:
                    vals = []
                    for v in k.values:
                        if isinstance(v, (Seg, Hidden)):
                            raise Unsupported('nested join')
                        vals.extend(self.join_item(b, v))
                    cases.append(Case(k.guards, vals))
                items.append(Seg(x.seq, x.tag, cases, x.rng))
            else:
                empty = False
                items.extend(self.join_item(b, x))
        return out + ('**' if b == '{' else '*') + self.new('e' if empty else 'j', IList(items))

    def join_item(self, b, v):
        s = self.lower(v)
        if b == '{':
            r = self.value(self.parse('{%s}' % s, 'eval'))
            if r[0] != 'dict' or len(r[1].parts) != 1:
                raise BadText('joined item %r' % s)
            return [('item',) + tuple(r[1].parts[0])]
        if not s.strip():
            raise BadText('empty joined item')
        r = self.value(self.parse('[%s]' % s, 'eval'))
        if len(r[1].parts) != 1:
            raise BadText('joined item %r' % s)
        return list(r[1].parts)

    def join_lines(self, out, p):
        """items one per line: each must be complete statements"""
        if out and not out.endswith('\n'):
            raise BadText('repeated text does not start on a line of its own')
        if bracket(out):
            raise Unsupported('lines in a display')
        items = []
        for x in p.parts:
            if isinstance(x, Seg):
                x = derived(x)
                cases = [Case(k.guards, [y for v in k.values for y in
                                         self.stmts(self.parse(self.lower(v) + '\n', 'exec').body).parts]) for k in x.cases]
                items.append(Seg(x.seq, x.tag, cases, x.rng))
            else:
                items.extend(self.stmts(self.parse(self.lower(x) + '\n', 'exec').body).parts)
        return out + self.new('j', IList(items))

    # ------------------------------------------------------------ parsing
    def parse(self, s, mode):
        try:
            t = ast.parse(s, mode=mode)
        except (SyntaxError, ValueError) as e:
            raise BadText('not Python: %s\n%s' % (e, s[-1500:]))
        # a join of nothing
        es = [k for k in PH.finditer(s) if k.group(1) == 'e']
        if es:
            s2 = re.sub(r'\*{1,2}_vce\d+_', '', s)
            try:
                ast.parse(s2, mode=mode)
            except (SyntaxError, ValueError) as e:
                raise BadText('not Python when a list is empty: %s\n%s' % (e, s2[-1500:]))
        return t.body if mode == 'eval' else t

    def text(self, s):
        """the rope of a text with placeholders"""
        out = []
        pos = 0
        for m in PH.finditer(s):
            out.append(s[pos:m.start()])
            pos = m.end()
            letter, p = self.ph[m.group(0)]
            if letter in 'rje':
                raise BadText('repeated text inside %r' % s)
            out.append(SymStr((p,)))
        out.append(s[pos:])
        return cat(out)

    def name(self, s):
        m = PH.fullmatch(s)
        if m:
            letter, p = self.ph[s]
            if letter == 'd':
                return SymInt(p.z)
            if letter == 'n':
                return p
            if letter == 'q':
                return p.s
            if letter == 'x':
                return ('name', SymStr((p,)))
        for m in PH.finditer(s):
            if self.ph[m.group(0)][0] not in 'ad':
                raise BadText('expression glued to a name: %r' % s)
        return ('name', self.text(s))

    def items(self, nodes, dict_=False):
        out = []
        for n in nodes:
            if isinstance(n, ast.Starred) and isinstance(n.value, ast.Name):
                m = PH.fullmatch(n.value.id)
                if m and m.group(1) in 'rje':
                    p = self.ph[n.value.id][1]
                    out.extend(p.parts if isinstance(p, IList) else [p])
                    continue
            out.append(self.value(n))
        return IList(out)

    def value(self, n):
        if isinstance(n, ast.Expression):
            n = n.body
        if isinstance(n, ast.Constant):
            return self.text(n.value) if isinstance(n.value, str) else n.value
        if isinstance(n, ast.Name):
            return self.name(n.id)
        if isinstance(n, ast.Attribute):
            return ('attr', self.value(n.value), self.text(n.attr))
        if isinstance(n, ast.Call):
            return ('call', self.value(n.func), self.items(n.args),
                    IList([(k.arg, self.value(k.value)) for k in n.keywords]))
        if isinstance(n, ast.List):
            return ('list', self.items(n.elts))
        if isinstance(n, ast.Tuple):
            return ('tuple', self.items(n.elts))
        if isinstance(n, ast.Dict):
            out = []
            for k, v in zip(n.keys, n.values):
                if k is None:
                    m = PH.fullmatch(v.id) if isinstance(v, ast.Name) else None
                    if not m or m.group(1) not in 'rje':
                        raise BadText('** in a display')
                    p = self.ph[v.id][1]
                    for q in (p.parts if isinstance(p, IList) else [p]):
                        if isinstance(q, Seg):
                            out.append(Seg(q.seq, q.tag, [Case(c.guards, [x[1:] for x in c.values]) for c in q.cases], q.rng))
                        else:
                            out.append(q[1:])
                else:
                    out.append((self.value(k), self.value(v)))
            return ('dict', IList(out))
        if isinstance(n, ast.BinOp):
            return ('bin', type(n.op).__name__, self.value(n.left), self.value(n.right))
        if isinstance(n, ast.UnaryOp):
            v = self.value(n.operand)
            if isinstance(n.op, ast.USub):
                if isinstance(v, (int, float, SymInt, SymFloat)) and not isinstance(v, bool):
                    return -v
                return ('neg', v)
            if isinstance(n.op, ast.UAdd) and isinstance(v, (int, float, SymInt, SymFloat)):
                return v
            return ('unary', type(n.op).__name__, v)
        if isinstance(n, ast.Subscript):
            return ('sub', self.value(n.value), self.value(n.slice))
        if isinstance(n, ast.Lambda):
            return ('lambda', ast.dump(n))
        return ('node', ast.dump(n))

    def stmts(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, ast.Expr):
                if isinstance(n.value, ast.Name):
                    m = PH.fullmatch(n.value.id)
                    if m and m.group(1) in 'rje':
                        p = self.ph[n.value.id][1]
                        out.extend(p.parts if isinstance(p, IList) else [p])
                        continue
                out.append(('expr', self.value(n.value)))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                out.append(('=', self.value(n.targets[0]), self.value(n.value)))
            elif isinstance(n, ast.ClassDef):
                out.append(('class', self.text(n.name), self.items(n.bases), self.stmts(n.body)))
            elif isinstance(n, ast.Pass):
                out.append(('pass',))
            elif isinstance(n, ast.Try):
                out.append(('try', self.stmts(n.body), IList([(self.value(h.type) if h.type else None, self.stmts(h.body))
                                                            for h in n.handlers]),
                            self.stmts(n.orelse), self.stmts(n.finalbody)))
            elif isinstance(n, ast.FunctionDef):
                out.append(('def', self.text(n.name), ast.dump(n)))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.append(('import', ast.unparse(n)))
            else:
                out.append(('stmt', ast.dump(n)))
        return IList(out)

    def program(self, rope):
        s = self.lower(rope)
        return self.stmts(self.parse(s, 'exec').body)

    def expr(self, rope):
        return self.value(self.parse(self.lower(rope), 'eval'))


def program(rope):
    return Reader().program(rope)


def expr(rope):
    return Reader().expr(rope)


def nonl(p):
    if isinstance(p, Atom):
        return p.kind in ('ident', 'expr', 'line') or p.charset is not None and '\n' not in p.charset
    return isinstance(p, (Dec, Flo, Quoted))


def line_text(t):
    if isinstance(t, str):
        return '\n' not in t
    return isinstance(t, SymStr) and all(('\n' not in x) if isinstance(x, str) else nonl(x) for x in t.p)


def string_text(t, q):
    """the text stays inside a string literal of the quotes q"""
    if isinstance(t, SymStr):
        return all(string_text(x, q) for x in t.p)
    if isinstance(t, str):
        return '\\' not in t and q[0] not in t and ('\n' not in t or len(q) == 3)
    if isinstance(t, Atom):
        if t.kind == 'quotesafe':
            return True
        if t.esc is not None:
            return (q[0] in t.esc or t.charset is not None and q[0] not in t.charset) and (len(q) == 3 or nonl(t))
        return t.charset is not None and not (t.charset & set('\\\n\r\0' + q[0]))
    return isinstance(t, (Dec, Flo))


def only_comment(s):
    return all(not x.strip() or x.strip().startswith('#') for x in s.splitlines()) and (not s or s.endswith('\n'))


def nl_ok(s):
    """a comment in the repeated text ends with its line"""
    last = s.rsplit('\n', 1)[-1]
    return quote_state('\n' + last) != '#'


def quote_state(s):
    """'#' inside a comment, a quote character inside a string literal, '' in code (end of s)"""
    i = 0
    q = ''
    n = len(s)
    while i < n:
        c = s[i]
        if q == '#':
            if c == '\n':
                q = ''
        elif q:
            if c == '\\':
                i += 1
            elif s.startswith(q, i):
                i += len(q) - 1
                q = ''
        elif c == '#':
            q = '#'
        elif c in '\'"':
            q = c * 3 if s.startswith(c * 3, i) else c
            i += len(q) - 1
        i += 1
    return q


def bracket(s):
    """innermost open bracket at the end of s"""
    st = []
    i = 0
    q = ''
    n = len(s)
    while i < n:
        c = s[i]
        if q == '#':
            if c == '\n':
                q = ''
        elif q:
            if c == '\\':
                i += 1
            elif s.startswith(q, i):
                i += len(q) - 1
                q = ''
        elif c == '#':
            q = '#'
        elif c in '\'"':
            q = c * 3 if s.startswith(c * 3, i) else c
            i += len(q) - 1
        elif c in '([{':
            st.append(c)
        elif c in ')]}':
            if st:
                st.pop()
        i += 1
    return st[-1] if st else ''
