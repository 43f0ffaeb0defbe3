"""Specification side: contracts, symbolic inputs, element-wise postconditions.

A contract is a function of a `V` object.  It is executed in one of three modes:
  proof    sequences have unknown length, scalars are solver constants (all paths, no bound)
  bounded  sequences are unrolled up to `bound` elements (used when an obligation fails, to
           tell a wrong program from an invariant the engine could not infer)
  concrete every input has the value of a counterexample and the code is the real, not
           instrumented one (replay of a counterexample)"""
import importlib
import z3
from .core import (Ctx, Sym, SymInt, SymBool, SymFloat, Unsupported, PathDone, Failed, ctx, mkbool, mkint, tobool, toint)
from .rope import RUNS, SymStr, Atom, cat
from .values import (IList, VDict, VSet, SymSeq, SymStream, Seg, Hidden, Ghost, Monitor, Case, whole, sym_eq, subst,
                     Consts, parts_of)
from . import hooks, frame as _frame

CONTRACTS = {}      # id -> Contract


class Contract:
    def __init__(self, cid, fn, target, props, modes, timeout):
        self.cid, self.fn, self.target, self.props, self.modes, self.timeout = cid, fn, target, props, modes, timeout


def contract(cid, target, props, modes=('proof', 'bounded'), timeout=240):
    """register a contract: target names the functions of /repo whose obligations it generates"""
    def deco(fn):
        CONTRACTS[cid] = Contract(cid, fn, target, props if isinstance(props, (list, tuple)) else [props], modes, timeout)
        return fn
    return deco


class Scope:
    """symbolic scalars of one element"""

    def __init__(self, prefix, seq=None, index=None):
        self.prefix, self.of, self.index = prefix, seq, index

    def _reg(self, n, sort, z):
        c = ctx()
        if self.of is not None:
            c.locals.setdefault(self.of.name, {})[n] = (n, sort)
        c.inputs[self.prefix + n] = z

    def _fact(self, n, k, cond):
        c = ctx()
        c.assume_quiet(cond)
        if self.of is not None:
            tag = self.prefix[len(self.of.name) + 1:].split(']')[0]
            c.scopefacts.setdefault(self.of.name, {}).setdefault((self.prefix.split('].', 1)[1] + n, k), (tag, cond))

    def _val(self, n, default):
        return ctx().values.get(self.prefix + n, default)

    def int(self, n, lo=None, hi=None):
        c = ctx()
        if c.mode == 'concrete':
            return int(self._val(n, lo or 0))
        z = z3.Int(self.prefix + n)
        self._reg(n, z3.IntSort(), z)
        if lo is not None:
            self._fact(n, 'lo', z >= lo)
        if hi is not None:
            self._fact(n, 'hi', z <= hi)
        return SymInt(z)

    def bool(self, n):
        if ctx().mode == 'concrete':
            return bool(self._val(n, False))
        z = z3.Bool(self.prefix + n)
        self._reg(n, z3.BoolSort(), z)
        return SymBool(z)

    def float(self, n):
        """a finite float"""
        if ctx().mode == 'concrete':
            return float(self._val(n, 0.5))
        z = z3.Real(self.prefix + n)
        self._reg(n, z3.RealSort(), z)
        return SymFloat(z)

    def str(self, n, kind='ident', charset=None, nonempty=False):
        """an unknown string: 'ident' (identifier), 'text' (any), 'line' (no newline), 'run' 'run1' 'char' (characters of the
        alphabet: any number, one or more, one)"""
        if ctx().mode == 'concrete':
            s = str(self._val(n, 'x'))
            if kind in RUNS:
                s = ''.join(ch for ch in s if ch in charset) or (max(charset) if isinstance(charset, frozenset) else 'x')
                return s[:1] if kind == 'char' else s
            if kind == 'ident':
                s = ''.join(ch if (ch.isalnum() and ord(ch) < 128) or ch == '_' else '_' for ch in s) or 'x'
            return s
        a = Atom(self.prefix + n, kind, charset=charset)
        self._reg(n, z3.StringSort(), a.z)
        if kind in RUNS:
            assert charset is not None
        elif kind in ('ident', 'expr') or nonempty:
            self._fact(n, 'len', z3.Length(a.z) > 0)
        return SymStr((a,))

    def choice(self, n, options):
        """one of the options (forks)"""
        c = ctx()
        options = list(options)
        if c.mode == 'concrete':
            k = int(self._val(n, 0))
            return options[k if 0 <= k < len(options) else 0]
        z = z3.Int(self.prefix + n)
        self._reg(n, z3.IntSort(), z)
        self._fact(n, 'choice', z3.And(z >= 0, z < len(options)))
        return options[c.choose(len(options), [z == i for i in range(len(options))])]

    def idx(self):
        if self.index is not None:
            return self.index
        return SymInt(z3.Int(self.prefix + 'idx'))

    def sub(self, n):
        return Scope(self.prefix + n + ".", self.of, self.index)


class SubScope(Scope):
    def _reg(self, n, sort, z):
        c = ctx()
        if self.of is not None:
            full = self.prefix[len(self.root):] + n
            c.locals.setdefault(self.of.name, {})[full] = (full, sort)
        c.inputs[self.prefix + n] = z


class Each:
    """expected: for every element e of the sequence, in order, the values f(e)"""

    def __init__(self, lst, f):
        self.lst, self.f = lst, f


class V(Scope):
    def __init__(self, contract_, bound=2):
        Scope.__init__(self, '')
        self.contract = contract_
        self.bound = bound
        self.mode = ctx().mode
        self.symbolic = self.mode != 'concrete'

    # ------------------------------------------------------------ code under verification
    def mod(self, name):
        return importlib.import_module(name)

    # ------------------------------------------------------------ values of texts
    def numeral(self, base, text):
        """the integer a text of digits denotes"""
        return hooks.numeral(base, text)

    def real(self, text, kind='dec'):
        """the floating-point value a C literal (without suffix) denotes: that of Python for the same text"""
        if isinstance(text, str):
            return float.fromhex(text) if kind == 'hex' else float(text)
        return hooks.str_to_float(text, kind)

    # ------------------------------------------------------------ inputs
    def seq(self, name, factory, facts=None, ghost=None, distinct=(), nonempty=False, bound=None):
        c = ctx()
        b = bound or self.bound
        if self.mode == 'proof':
            return whole(SymSeq(name, factory, facts, ghost, distinct, nonempty))
        if self.mode == 'bounded':
            z = z3.Int('len(%s)' % name)
            c.inputs['len(%s)' % name] = z
            lo = 1 if nonempty else 0
            opts = list(range(b, lo - 1, -1))
            n = opts[c.choose(len(opts), [z == i for i in opts])]
        else:
            n = max(1 if nonempty else 0, int(c.values.get('len(%s)' % name, 0)))
        out = []
        st = dict(ghost.init) if ghost is not None else None
        pres = []
        for k in range(n):
            pre = '%s[%d].' % (name, k)
            L = Consts(pre) if self.symbolic else ValConsts(pre)
            out.append(factory(Scope(pre, None, k)))
            if self.symbolic:
                for f in (facts(L) if facts else ()):
                    c.assume_quiet(f)
                if ghost is not None:
                    zst = {g: z3.IntVal(v) if isinstance(v, int) else v for g, v in st.items()}
                    for f in (ghost.pre(zst, L) if ghost.pre else ()):
                        c.assume_quiet(f)
                    st = {g: toz(x) for g, x in ghost.step(zst, L).items()}
                for p2 in pres:
                    for d in distinct:
                        c.assume_quiet(L.s(d) != Consts(p2).s(d))
            pres.append(pre)
        if self.symbolic and c.check() == z3.unsat:
            raise PathDone
        r = IList(out) if self.symbolic else list(out)
        if self.symbolic and ghost is not None:
            self.totals = getattr(self, 'totals', {})
            self.totals[name] = {g: (v if isinstance(v, int) else SymInt(z3.simplify(v))) for g, v in st.items()}
        return r

    def total(self, lst, name, g):
        """fold of the sequence's ghost"""
        if self.mode == 'proof':
            return lst.parts[0].seq.total[g]
        return self.totals[name][g]

    def monitor(self, name, init, step, count=None, last=None):
        """a fold over the items of lists, followed through loops (an invariant on its state is inferred)"""
        from .values import Monitor
        m = Monitor(name, init, step, count, last)
        ctx().monitors.append(m)
        return m

    def fold(self, m, lst):
        """state of the monitor for the items of the list"""
        from .loops import monitor_state
        st = monitor_state(m, parts_of(lst) if self.symbolic else list(lst))
        if st is None:
            raise Unsupported('fold over a list the monitor did not follow')
        return st

    def list(self, *xs):
        return IList(list(xs)) if self.symbolic else list(xs)

    def dict(self, pairs=()):
        if not self.symbolic:
            return dict(pairs)
        d = VDict()
        for k, v in pairs:
            d[k] = v
        return d

    def assume(self, c):
        if self.symbolic:
            ctx().assume(c)
        elif not c:
            raise PathDone

    # ------------------------------------------------------------ obligations
    def prove(self, cond, name, detail=None):
        return ctx().prove(cond, '%s: %s' % (self.contract.cid, name), detail=detail)

    def fail(self, name, detail=''):
        return self.prove(False, name, detail=detail)

    def both(self, f):
        """check f() on a path of its own, then go on"""
        if not self.symbolic:
            f()
            return
        if ctx().choose(2) == 0:
            f()
            raise PathDone

    def equal(self, a, b, name):
        """values equal (elements of sequences: the same element)"""
        if same_elem(a, b):
            return self.prove(True, name)
        e = deep_eq(a, b)
        return self.prove(e, name, detail=lambda: 'got %s\nwant %s\nequal when: %s' % (show(a), show(b), e))

    def expect_list(self, actual, expected, name, eq=None):
        """the list `actual` has exactly the expected items in order"""
        eq = eq or (lambda a, b: self.equal(a, b, name))
        if not self.symbolic or self.mode == 'bounded':
            want = []
            for x in expected:
                if isinstance(x, Each):
                    for e in x.lst:
                        want.extend(x.f(e))
                else:
                    want.append(x)
            got = list(actual)
            self.prove(len(got) == len(want), name + ' (number of items)', detail=lambda: 'got %s\nwant %s' % (show(got), show(want)))
            for a, b in zip(got, want):
                eq(a, b)
            return
        parts = parts_of(actual)
        exp = []
        for x in expected:
            if isinstance(x, Each):
                for p in parts_of(x.lst):
                    exp.append((p, x.f) if isinstance(p, Seg) else ('many', x.f(p)))
            else:
                exp.append(('one', x))
        flat = []
        for e in exp:
            if e[0] == 'many':
                flat.extend(('one', x) for x in e[1])
            else:
                flat.append(e)
        exp = flat
        i = 0
        while parts or exp:
            p = parts[0] if parts else None
            e = exp[0] if exp else None
            if isinstance(p, Hidden):
                p.read()
            if isinstance(p, Seg) and e is not None and e[0] != 'one' and e[0].seq is p.seq:
                self.both(lambda: self._pointwise(p, e, name, eq))
                parts.pop(0)
                exp.pop(0)
            elif isinstance(p, Seg) and not (e is not None and e[0] != 'one' and self._later(parts, e[0])):
                self.both(lambda: self._nothing(p, name))
                parts.pop(0)
            elif e is not None and e[0] != 'one':
                self.both(lambda: self._expect_nothing(e, name))
                exp.pop(0)
            elif p is None or e is None:
                self.prove(False, name + ' (number of items)', detail=lambda: 'left: got %s\nwant %s' % (show(parts), show(exp)))
                return
            else:
                eq(p, e[1])
                parts.pop(0)
                exp.pop(0)
        # vacuity: one obligation always counted
        self.prove(True, name)

    # ------------------------------------------------------------ generated text
    def program(self, g, attr='stream'):
        """statements of the text a generator printed"""
        from . import emit
        t = getattr(g, attr).getvalue() if attr else g
        try:
            return emit.program(t)
        except emit.BadText as e:
            self.prove(False, 'the generated text is Python', detail='%s\n%s' % (e, show(t)))

    def expr(self, t):
        from . import emit
        try:
            return emit.expr(t)
        except emit.BadText as e:
            self.prove(False, 'the generated text is a Python expression', detail='%s\n%s' % (e, show(t)))

    def match(self, a, e, name):
        """the value a (read from generated text) is e; lists in e may contain each(..)"""
        if isinstance(e, Each):
            e = [e]
        if isinstance(e, (list, IList)):
            if isinstance(a, (list, tuple, IList)):
                self.expect_list(a, list(e) if isinstance(e, list) else parts_of(e), name, eq=lambda x, y: self.match(x, y, name))
                return
        elif isinstance(e, tuple) and isinstance(a, (tuple, IList)) and len(parts_of(a)) == len(e):
            if any(isinstance(x, (tuple, list, Each)) for x in e):
                for x, y in zip(parts_of(a), e):
                    self.match(x, y, name)
                return
            self.equal(a, e, name)
            return
        elif not isinstance(e, tuple) and not isinstance(a, (tuple, list, IList)):
            if type(a) is not type(e) and not isinstance(a, Sym) and not isinstance(e, Sym) and isinstance(a, bool) != isinstance(e, bool):
                self.prove(False, name, detail=lambda: 'got %s\nwant %s' % (show(a), show(e)))
            self.equal(a, e, name)
            return
        self.prove(False, name, detail=lambda: 'got %s\nwant %s' % (show(a), show(e)))

    def expect_program(self, out, want, name):
        self.match(out, want, name)

    def _later(self, parts, seg):
        return any(isinstance(p, Seg) and p.seq is seg.seq for p in parts)

    def _pointwise(self, p, e, name, eq):
        src, f = e
        vals, tag, idx = p.open()
        if src.cases is not None:
            raise Unsupported('expected over a derived sequence')
        elem = p.seq.make(tag)
        if src.maps:
            for m in src.maps:
                elem = m(elem, SymInt(idx))
        want = list(f(elem))
        self.prove(len(vals) == len(want), name + ' (number of items per element)',
                   detail=lambda: 'element %s: got %s\nwant %s' % (show(elem), show(vals), show(want)))
        for a, b in zip(vals, want):
            eq(a, b)

    def _nothing(self, p, name):
        vals, tag, idx = p.open()
        self.prove(not vals, name + ' (unexpected items)', detail=lambda: show(vals))

    def _expect_nothing(self, e, name):
        src, f = e
        el, tag, idx = src.seq.elem()
        want = f(el)
        self.prove(not want, name + ' (missing items)', detail=lambda: 'want ' + show(want))

    def elem(self, lst):
        """an arbitrary element of the list"""
        ps = parts_of(lst) if self.symbolic else list(lst)
        if not ps:
            raise PathDone
        k = ctx().choose(len(ps)) if self.symbolic and len(ps) > 1 else 0
        if not self.symbolic:
            raise Unsupported('arbitrary element in concrete mode')
        p = ps[k]
        if isinstance(p, Seg):
            vals, tag, idx = p.open()
            if not vals:
                raise PathDone
            return vals[ctx().choose(len(vals)) if len(vals) > 1 else 0]
        return p

    def any(self, lst):
        """for e in v.any(lst): an arbitrary element (all of them in concrete mode)"""
        if not self.symbolic:
            return list(lst)
        return [self.elem(lst)] if lst else []

    def forall(self, lst, f):
        """f(x) checked (with obligations) for every item of the list, nested loop output included"""
        if not self.symbolic:
            for x in lst:
                f(x)
            return
        def go(parts):
            for p in parts:
                if isinstance(p, Hidden):
                    p.read()
                if isinstance(p, Seg):
                    self.both(lambda p=p: go(p.open()[0]))
                else:
                    f(p)
        go(parts_of(lst))

    def has(self, lst, x, near=()):
        """x (an element) is in the list; near: elements to look at for nested loop output"""
        if not self.symbolic:
            return any(y is x for y in lst)
        c = ctx()
        tags = {}
        for e in (x,) + tuple(near):
            eo = c.elem_of.get(id(e))
            if eo is not None:
                tags[eo[0]] = eo[1]

        def go(parts, ren):
            alts = []
            for p in parts:
                if isinstance(p, Hidden):
                    p.read()
                if not isinstance(p, Seg):
                    a, b = c.elem_of.get(id(p)), c.elem_of.get(id(x))
                    if p is x:
                        return [z3.BoolVal(True)]
                    if a is not None and b is not None and a[0] == b[0] and (ren.get(a, a[1]) == b[1]):
                        return [z3.BoolVal(True)]
                    continue
                t = tags.get(p.seq.name)
                if t is None:
                    continue
                if p.cases is None:
                    if c.elem_of.get(id(x), (0, 0)) == (p.seq.name, t) and not p.maps:
                        return [z3.BoolVal(True)]
                    continue
                r2 = dict(ren)
                r2[(p.seq.name, p.tag)] = t
                for k in p.cases:
                    sub_ = go(k.values, r2)
                    if not sub_:
                        continue
                    gs = []
                    for g in k.guards:
                        for (sn, t0), t1 in r2.items():
                            g = subst(g, sn, t0, t1)
                        gs.append(g)
                    from .values import adopt
                    adopt([z3.And(*gs)] if gs else [])
                    alts.append(z3.And(*(gs + [z3.Or(*sub_)])))
            return alts
        alts = go(parts_of(lst), {})
        return mkbool(z3.Or(*alts)) if alts else False

    def exists(self, lst, f):
        """formula: some element satisfies f (a formula of the element, no forks)"""
        if not self.symbolic or IList(parts_of(lst)).concrete:
            return Or(*[f(x) for x in lst])
        from .values import derived, exists_pred, member_formula
        alts = []
        for p in parts_of(lst):
            if isinstance(p, Seg):
                p = derived(p)
                g = z3.simplify(member_formula(p, f))
                if not z3.is_false(g):
                    alts.append(exists_pred(p.seq, p.tag, g))
            else:
                alts.append(tobool(f(p)))
        return Or(*alts)

    def some(self, lst, f):
        """is there an element satisfying f?  forks"""
        r = self.exists(lst, f)
        if not self.symbolic:
            return bool(r)
        from .values import adopt
        if bool(r):
            if isinstance(r, SymBool):
                adopt([r.z])
            return True
        return False

    def is_item(self, e, lst):
        if not self.symbolic:
            return any(e is x for x in lst)
        c = ctx()
        eo = c.elem_of.get(id(e))
        return any((isinstance(p, Seg) and eo is not None and p.seq.name == eo[0]) or p is e for p in parts_of(lst))

    def empty(self, lst):
        return not lst

    def member(self, x, lst):
        """x equals an item of lst"""
        from . import hooks
        return hooks.contains(x, lst)

    def mapped(self, lst, f):
        """[f(x) for x in lst]"""
        if not self.symbolic:
            return [f(x) for x in lst]
        from .loops import comp
        self.maps = getattr(self, 'maps', 0) + 1
        return comp('list', 'spec:map%d' % self.maps, lst, f, None, {})

    def rounds(self, *state, cut=False):
        """the next while loop is entered in an arbitrary round: `state` is arbitrary already, integers and truth
        values its body assigns become so.  cut: nothing is to be shown of the state after a round"""
        if self.symbolic:
            ctx().rounds = (state, cut)

    def round_done(self):
        """(the state after the round was checked)"""
        raise PathDone

    def each(self, lst, f):
        return Each(lst, f)

    def sorted(self, lst):
        from .hooks import s_sorted
        return s_sorted(lst) if self.symbolic else sorted(lst)

    @property
    def os_path(self):
        import os
        from . import hooks
        return hooks.OSPATH if self.symbolic else os.path

    def pred(self, name, *sorts):
        """uninterpreted predicate"""
        if not self.symbolic:
            raise Unsupported('predicate in concrete mode')
        return Pred(name, sorts)


class Pred:
    SORTS = {'int': z3.IntSort, 'str': z3.StringSort, 'bool': z3.BoolSort}

    def __init__(self, name, sorts):
        self.f = z3.Function(name, *([self.SORTS[s]() for s in sorts] + [z3.BoolSort()]))

    def z(self, *a):
        from .core import z_of
        return self.f(*[x if isinstance(x, z3.ExprRef) else z_of(x) for x in a])

    def __call__(self, *a):
        return mkbool(self.z(*a))


class ValConsts:
    def __init__(self, pre):
        self.pre = pre


def toz(v):
    if isinstance(v, int):
        return z3.IntVal(v)
    return v if isinstance(v, z3.ExprRef) else toint(v)


def same_elem(a, b):
    if a is b:
        return True
    c = ctx()
    x, y = c.elem_of.get(id(a)), c.elem_of.get(id(b))
    return x is not None and y is not None and x == y


def show(x, d=4):
    """text of a value for reports"""
    try:
        if isinstance(x, SymStr):
            return '"' + ''.join(p if isinstance(p, str) else '{%r}' % (p,) for p in x.p) + '"'
        if isinstance(x, (str, int, float, type(None), SymInt, SymBool, SymFloat, type)):
            return repr(x)
        if d <= 0:
            return '...'
        if isinstance(x, (list, tuple, IList)):
            return '[' + ', '.join(show(y, d - 1) for y in parts_of(x)) + ']'
        if isinstance(x, Case):
            return '%s -> %s' % (x.guards, show(x.values, d - 1))
        if isinstance(x, Seg):
            return '<for %s[%s]: %s>' % (x.seq.name, x.tag, show(x.cases, d - 1) if x.cases is not None else 'itself')
        if hasattr(x, '__dict__') and not callable(x):
            return '<%s %s>' % (type(x).__name__, ' '.join('%s=%s' % (k, show(y, d - 2)) for k, y in list(vars(x).items())[:8]))
        return repr(x)
    except Exception as e:
        return '<%s>' % type(x).__name__


def deep_eq(a, b):
    if same_elem(a, b):
        return True
    if isinstance(a, (tuple, list, IList)) and isinstance(b, (tuple, list, IList)) and not isinstance(a, SymStr):
        pa, pb = parts_of(a), parts_of(b)
        if any(isinstance(p, (Seg, Hidden)) for p in pa + pb):
            if len(pa) == len(pb) and all(x is y for x, y in zip(pa, pb)):
                return True
            raise Unsupported('comparison of lists of unknown length')
        if len(pa) != len(pb):
            return False
        r = []
        for x, y in zip(pa, pb):
            e = deep_eq(x, y)
            if e is False:
                return False
            r.append(tobool(e))
        r = [z for z in r if z is not True]
        return True if not r else mkbool(z3.And(*r))
    if isinstance(a, (Sym, str, int)) or isinstance(b, (Sym, str, int)):
        if (a is None) != (b is None):
            return False
        return sym_eq(a, b)
    return a is b or sym_eq(a, b)


def And(*xs):
    r = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is not True:
            r.append(x)
    return True if not r else mkbool(z3.And(*r))


def Or(*xs):
    r = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is not False:
            r.append(x)
    return False if not r else mkbool(z3.Or(*r))


def Not(x):
    x = tobool(x)
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(x))


def Implies(a, b):
    return Or(Not(a), b)


def ENGINE_TYPE(msg):
    return any(t in msg for t in ('IList', 'SymStr', 'VDict', 'VSet', 'SymInt', 'SymBool', 'SymStream', "'Seg'", 'Hidden',
                                  'Stub', 'Poison', 'z3', 'Ref\''))


def outside_contract(e):
    """the contract itself does not fit the code any more (an entry point or a module name it replaces is gone, or
    the code asks a stand-in something it does not model): nothing is known about the property"""
    import os
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs') + os.sep
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        t = o if isinstance(o, type) else type(o)
        if t.__module__.startswith('specs'):
            return True
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return isinstance(e, (AttributeError, KeyError, TypeError, NameError)) and tb.tb_frame.f_code.co_filename.startswith(here)


def run_contract(cid, mode='proof', bound=2, values=None, timeout=None, frame=False):
    """run one contract; returns a plain dict"""
    import time
    import traceback
    k = CONTRACTS[cid]
    t = time.time()
    c = Ctx(mode, bound, values, deadline=t + (timeout or k.timeout))
    err = None
    if frame:
        _frame.load()
    base = _frame.shared() if frame else None

    def go(cc):
        done = None
        try:
            run(cc)
        except (PathDone, Failed) as e:
            done = e
        if frame:
            where = _frame.differs(base, _frame.shared()) or _frame.watched()
            cc.path_ended = True
            cc.prove(where is None, 'frame: nothing shared by all translations is changed', detail='changed: %s' % where)
        if done is not None:
            raise done

    def run(cc):
        _frame.WATCHED.clear()
        v = V(k, bound)
        try:
            k.fn(v)
        except (Unsupported, RecursionError):
            raise
        except Exception as e:       # raised by the code under verification
            msg = '%s: %s' % (type(e).__name__, e)
            tb = traceback.format_exc()
            if isinstance(e, (AttributeError, TypeError, z3.Z3Exception)) and ENGINE_TYPE(msg):
                raise Unsupported('%s\n%s' % (msg, tb))
            if outside_contract(e):
                raise Unsupported('%s\n%s' % (msg, tb))
            v.prove(False, 'no exception is raised', detail=tb)
    try:
        if mode == 'concrete':
            prev = Ctx.cur
            Ctx.cur = c
            c.reset_path([])
            try:
                go(c)
            except (Failed, PathDone):
                pass
            finally:
                Ctx.cur = prev
        else:
            c.explore(go)
    except Unsupported as e:
        err = 'engine limit: %s' % e
        err += '\n' + traceback.format_exc()
    except RecursionError as e:
        err = 'engine limit: recursion'
    except z3.Z3Exception as e:
        err = 'engine limit: z3 %s' % e
    for o in c.obligations.values():
        if o.ok and not o.covered and mode != 'concrete':
            o.status, o.detail = 'unknown', 'vacuous: no feasible path reaches this obligation'
    if frame:
        c.obligations = {n: o for n, o in c.obligations.items() if 'frame: ' in n}
    obs = [dict(name=o.name, status=o.status, detail=o.detail, model=o.model, havoc=o.havoc)
           for o in c.obligations.values()]
    if not obs and err is None:
        err = 'engine limit: no obligation generated (vacuous)'
    return dict(contract=cid, target=k.target, props=k.props, mode=mode, bound=bound if mode == 'bounded' else None,
                obligations=obs, checks=c.obl_count, paths=c.paths, restarts=c.restarts, queries=c.queries,
                solver_s=round(c.solver_time, 3), wall_s=round(time.time() - t, 3), error=err)
