"""Containers that may hold symbolic parts: lists, dicts, sets, output streams and the
symbolic sequences (unknown length) they are built from."""
import re
import z3
from .core import (Sym, SymInt, SymBool, Unsupported, Restart, Ctx, ctx, mkbool, mkint, tobool, toint, free_consts)
from . import core, rope
from .rope import SymStr, cat, lift


def sym_eq(a, b):
    """a == b with symbolic containers; result bool or SymBool"""
    if a is b:
        return True
    if isinstance(a, (tuple,)) and isinstance(b, (tuple,)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = sym_eq(x, y)
            if e is False:
                return False
            if e is not True:
                r = e if r is True else SymBool(z3.And(tobool(r), tobool(e)))
        return r
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym):
            r = a.__eq__(b)
            if r is NotImplemented:
                r = b.__eq__(a) if isinstance(b, Sym) else False
        else:
            r = b.__eq__(a)
        return False if r is NotImplemented else r
    same = same_object(a, b)
    if same is not None:
        return same
    r = (a == b)
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def same_object(a, b):
    """identity of two objects that are elements of one sequence (bool or SymBool), None for others"""
    if not hasattr(a, '__dict__') or type(a) is not type(b):
        return None
    c = ctx()
    if c is None:
        return None
    x, y = c.elem_of.get(id(a)), c.elem_of.get(id(b))
    if x is None or y is None or x[0] != y[0]:
        return None
    if x[1] == y[1]:
        return True
    seq = c.seqs.get(x[0])
    return None if seq is None else mkbool(seq.idx(x[1]) == seq.idx(y[1]))


class Consts:
    """z3 constants of one element, by local name"""

    def __init__(self, pre):
        self.pre = pre

    def i(self, n):
        return z3.Int(self.pre + n)

    def b(self, n):
        return z3.Bool(self.pre + n)

    def s(self, n):
        return z3.String(self.pre + n)


class SymSeq:
    """an unknown finite sequence.  factory(scope) builds one element whose scalars are fresh;
    facts(L) -> conditions assumed of every element (L: its constants); ghost: fold over the
    elements.  distinct: local scalar names that differ between any two elements."""

    def __init__(self, name, factory, facts=None, ghost=None, distinct=(), nonempty=False):
        c = ctx()
        self.name = c.fresh_name(name)
        self.factory, self.facts, self.ghost, self.distinct = factory, facts, ghost, distinct
        self.length = SymInt(z3.Int('len(%s)' % self.name))
        c.inputs['len(%s)' % self.name] = self.length.z
        c.assume_quiet(self.length.z >= (1 if nonempty else 0))
        c.seqs[self.name] = self
        self.total = {}
        if ghost is not None:
            for g in ghost.init:
                self.total[g] = SymInt(z3.Int('%s.total.%s' % (self.name, g)))
            c.assume_quiet(z3.Implies(self.length.z == 0, z3.And(*[self.total[g].z == v for g, v in ghost.init.items()])))

    def pre(self, tag):
        return '%s[%s].' % (self.name, tag)

    def idx(self, tag):
        return z3.Int(self.pre(tag) + 'idx')

    def activate(self, tag):
        """the constants of `tag` denote an actual element from here on"""
        c = ctx()
        act = c.elems.setdefault(self.name, [])
        if tag in act:
            raise Unsupported('second use of the generic element %s[%s]' % (self.name, tag))
        L = Consts(self.pre(tag))
        idx = self.idx(tag)
        c.assume_quiet(z3.And(idx >= 0, idx < self.length.z))
        if self.facts is not None:
            for f in self.facts(L):
                c.assume_quiet(f)
        for t0, cond in c.scopefacts.get(self.name, {}).values():
            if t0 != tag:
                c.assume_quiet(subst(cond, self.name, t0, tag))
        for (sname, t0, cond) in c.foralls:
            if sname == self.name:
                c.assume_quiet(subst(cond, self.name, t0, tag))
        for t2 in act:
            L2 = Consts(self.pre(t2))
            i2 = self.idx(t2)
            for d in self.distinct:
                c.assume_quiet(z3.Implies(idx != i2, L.s(d) != L2.s(d)))
            for z in c.locals.get(self.name, {}).values():
                n = z[0]
                c.assume_quiet(z3.Implies(idx == i2, z3.Const(L.pre + n, z[1]) == z3.Const(L2.pre + n, z[1])))
        act.append(tag)
        return idx

    def fresh_tag(self, base='e'):
        c = ctx()
        c.serial += 1
        return '%s%d' % (base, c.serial)

    def make(self, tag):
        """build the element object (may fork on its choices)"""
        from .spec import Scope
        c = ctx()
        sc = Scope(self.pre(tag), self)
        e = self.factory(sc)
        if not isinstance(e, (int, str, type, type(None))):
            c.elem_of[id(e)] = (self.name, tag)
        c.keep.append(e)
        return e

    def elem(self, base='e'):
        """a fresh generic element of the sequence: (object, tag, idx)"""
        tag = self.fresh_tag(base)
        idx = self.activate(tag)
        if ctx().check() == z3.unsat:
            from .core import PathDone
            raise PathDone
        return self.make(tag), tag, idx

    def forall(self, tag, cond):
        """cond (over the constants of element `tag`) holds of every element"""
        c = ctx()
        c.foralls.append((self.name, tag, cond))
        for t in c.elems.get(self.name, ()):
            c.assume_quiet(subst(cond, self.name, tag, t))


def consts_of(seqname, tag, z):
    pre = '%s[%s].' % (seqname, tag)
    return [e for e, n in core.const_terms(z) if n.startswith(pre)]


def subst(z, seqname, t0, t1):
    pairs = []
    for k in consts_of(seqname, t0, z):
        n = '%s[%s].%s' % (seqname, t1, k.decl().name()[len('%s[%s].' % (seqname, t0)):])
        pairs.append((k, z3.Const(n, k.sort())))
    return z3.substitute(z, *pairs) if pairs else z


class Ghost:
    """fold over the elements of a sequence: init {name: int}, pre(state, elem) conditions on
    the element given the fold of the earlier ones, step(state, elem) -> state"""

    def __init__(self, init, step, pre=None):
        self.init, self.step, self.pre = init, step, pre


class Monitor:
    """specification fold over the items a list receives: init {name: int|bool}, step; count: the field that
    counts the items; last(state): an object that stands for the last item"""

    def __init__(self, name, init, step, count=None, last=None):
        self.name, self.init, self.step, self.count, self.last = name, init, step, count, last


class Case:
    __slots__ = ('guards', 'values', 'exact')

    def __init__(self, guards, values, exact=True):
        self.guards, self.values, self.exact = guards, values, exact

    def __repr__(self):
        return 'Case(%s => %r)' % (self.guards, self.values)


class Seg:
    """contribution of a whole sequence, element by element in order.
    identity: cases is None, every element contributes itself (through maps);
    derived: the cases speak about the generic element `tag`; rng restricts to a prefix"""
    __slots__ = ('seq', 'tag', 'cases', 'rng', 'maps')

    def __init__(self, seq, tag=None, cases=None, rng=None, maps=()):
        self.seq, self.tag, self.cases, self.rng, self.maps = seq, tag, cases, rng, tuple(maps)

    def __repr__(self):
        return '<for %s: %r>' % (self.seq.name, self.cases if self.cases is not None else 'itself')

    def one_each(self):
        return self.rng is None and (self.cases is None or all(
            len(k.values) == 1 and not isinstance(k.values[0], (Seg, Hidden)) for k in self.cases))

    def map(self, f):
        """f(value, idx) applied to every contribution"""
        if self.cases is None:
            return Seg(self.seq, None, None, self.rng, self.maps + (f,))
        idx = SymInt(self.seq.idx(self.tag))
        return Seg(self.seq, self.tag, [Case(k.guards, [f(v, idx) for v in k.values], k.exact) for k in self.cases], self.rng)

    def open(self):
        """make the generic element actual and restrict the path to one of its cases:
        (values, tag, idx)"""
        c = ctx()
        from .core import PathDone
        if self.cases is None:
            e, tag, idx = self.seq.elem()
            v = e
            for f in self.maps:
                v = f(v, SymInt(idx))
            return [v], tag, idx
        idx = self.seq.activate(self.tag)
        if self.rng is not None:
            c.assume(self.rng)
        if c.check() == z3.unsat or not self.cases:
            raise PathDone
        k = c.choose(len(self.cases), [z3.And(*x.guards) if x.guards else z3.BoolVal(True) for x in self.cases])
        adopt(self.cases[k].guards)
        return list(self.cases[k].values), self.tag, idx

    def some(self):
        """formula over the generic element: it contributes something"""
        if self.cases is None:
            return z3.BoolVal(True)
        if any(k.values and not k.exact for k in self.cases):
            raise Unsupported('existence of loop output whose condition is not exact')
        alts = [z3.And(*k.guards) if k.guards else z3.BoolVal(True) for k in self.cases if k.values]
        f = z3.Or(*alts) if alts else z3.BoolVal(False)
        return z3.And(self.rng, f) if self.rng is not None else f

    def open_some(self):
        """as open, among the elements that contribute something"""
        vals, tag, idx = self.open()
        if not vals:
            from .core import PathDone
            raise PathDone
        return vals


class Hidden:
    """what earlier iterations of the loop being executed contributed"""
    __slots__ = ('loop', 'key', 'monitors', 'cases')

    def __init__(self, loop, key, monitors=None):
        self.loop, self.key, self.monitors = loop, key, monitors or {}

    def __repr__(self):
        return '<hidden %s>' % (self.key,)

    def read(self):
        self.loop.stateful_read(self.key)

    def count(self):
        """number of items, when a monitor counts them"""
        for m, st in self.monitors.values():
            if m.count is not None:
                return st[m.count]
        return None


class Fields(Hidden):
    """the fields of a text of which it is unknown where the separator occurs"""
    __slots__ = ('sep', 'text')

    def __init__(self, sep, text):
        self.sep, self.text, self.monitors = sep, text, {}

    def read(self):
        raise Unsupported('split of an unknown string')

    def count(self):
        return None


class Removed(Hidden):
    """the item taken from the list by an iteration over a copy of it (until the loop ends)"""
    __slots__ = ('value',)

    def __init__(self, value):
        self.value, self.monitors = value, {}

    def read(self):
        raise Unsupported('list read while items are removed from it')

    def count(self):
        return None


def cancel(parts, r):
    """the parts of a list after a loop over a copy of it, where r are the items removed"""
    from .loops import alike, deep_consts
    gone = [k for k in r.cases if k.values]
    mine = [i for i, p in enumerate(parts) if isinstance(p, Seg) and p.seq is r.seq]
    if len(mine) != 1 or r.rng is not None or any(len(k.values) != 1 or not isinstance(k.values[0], Removed) or not k.exact for k in gone):
        raise Unsupported('items removed from a list of unknown length')
    d = derived(parts[mine[0]])
    if d.rng is not None or any(len(k.values) > 1 for k in d.cases):
        raise Unsupported('items removed from a list of unknown length')
    if d.tag != r.tag:
        d = retagged(d, r.tag)
    cases = []
    used = set()
    for k in d.cases:
        if not k.values:
            cases.append(k)
            continue
        gs = []
        for j, x in enumerate(gone):
            if alike(x.values[0].value, k.values[0]):
                used.add(j)
                cs = set()
                for g in x.guards:
                    cs |= free_consts(g)
                # equal items are removed alike
                if any(n.startswith('hv!') for n in cs) or any(r.tag in n for n in cs - deep_consts(k.values[0], set())):
                    raise Unsupported('items removed depending on their position')
                gs.append(z3.And(*x.guards) if x.guards else z3.BoolVal(True))
        f = z3.simplify(z3.Or(*gs)) if gs else z3.BoolVal(False)
        if not z3.is_false(f):
            cases.append(Case(list(k.guards) + [f], [], k.exact))
        if not z3.is_true(f):
            cases.append(Case(list(k.guards) + [z3.simplify(z3.Not(f))], list(k.values), k.exact))
    if len(used) != len(gone):
        raise Unsupported('items removed from another list')
    return parts[:mine[0]] + [Seg(r.seq, r.tag, cases)] + parts[mine[0] + 1:]


def whole(seq):
    """list consisting of the elements of seq"""
    return IList([Seg(seq)])


class Pos(SymInt):
    """a position in a list of unknown length, with the parts before it and from it on"""
    __slots__ = ('of', 'head', 'tail')

    def __init__(self, z_, of, head, tail):
        self.z, self.of, self.head, self.tail = z_, of, head, tail

    def __add__(self, o):
        if isinstance(o, int) and o == 1 and self.tail and not isinstance(self.tail[0], (Seg, Hidden)):
            return Pos(self.z + 1, self.of, self.head + self.tail[:1], self.tail[1:])
        return SymInt.__add__(self, o)
    __radd__ = __add__

    def match(self, parts):
        if len(parts) != len(self.of) or any(x is not y for x, y in zip(parts, self.of)):
            raise Unsupported('position of another list')
        return self


def retagged(d, u):
    """the same contributions, by another generic element"""
    from .hooks import retag
    n, t = d.seq.name, d.tag
    return Seg(d.seq, u, [Case([subst(g, n, t, u) for g in k.guards], [retag(v, n, t, u) for v in k.values], k.exact) for k in d.cases],
               subst(d.rng, n, t, u) if d.rng is not None else None)


def first_part(parts, i, x):
    """split the list at an element of the part i that is x"""
    c = ctx()
    d = derived(parts[i])
    if any(len(k.values) > 1 or any(isinstance(v, (Seg, Hidden)) for v in k.values) for k in d.cases):
        raise Unsupported('position inside a list of unknown length')
    seq = d.seq
    at = z3.Int(c.unique('at'))
    t = seq.fresh_tag('t')
    seq.activate(t)
    c.assume_quiet(z3.And(seq.idx(t) == at, subst(member_formula(d, lambda v: sym_eq(v, x), over=True), seq.name, d.tag, t)))

    def piece(rel):
        r = retagged(d, seq.fresh_tag('t'))
        rng = rel(seq.idx(r.tag), at)
        r.rng = rng if r.rng is None else z3.And(rng, r.rng)
        return r
    return parts[:i] + [piece(lambda a, b: a < b)], [x, piece(lambda a, b: a > b)] + parts[i + 1:]


class IList:
    """list with symbolic parts"""
    __slots__ = ('parts', 'tuple_', '__weakref__')

    def __init__(self, parts=(), tuple_=False):
        self.parts = list(parts)
        self.tuple_ = tuple_
        if Ctx.cur is not None:
            Ctx.cur.ilists.append(self)

    # -- structure
    @property
    def concrete(self):
        return not any(isinstance(p, (Seg, Hidden)) for p in self.parts)

    def need(self):
        for p in self.parts:
            if isinstance(p, Hidden):
                p.read()
            if isinstance(p, Seg):
                raise Unsupported('list of unknown length used as a concrete list')
        return self.parts

    def __iter__(self):
        return iter(list(self.need()))

    def sym_iter_parts(self):
        return list(self.parts)

    def changing(self):
        c = Ctx.cur
        if c is not None and c.itered and any(x is self for x in c.itered):
            raise Unsupported('a list is changed while it is iterated over')

    def append(self, x):
        self.changing()
        self.parts.append(x)

    def extend(self, o):
        self.changing()
        self.parts.extend(parts_of(o))

    def __iadd__(self, o):
        self.changing()
        self.parts.extend(parts_of(o))
        return self

    def __add__(self, o):
        if not isinstance(o, (list, IList, tuple)):
            return NotImplemented
        return IList(self.parts + parts_of(o))

    def __radd__(self, o):
        if not isinstance(o, (list, tuple)):
            return NotImplemented
        return IList(parts_of(o) + self.parts)

    def __mul__(self, n):
        return IList(list(self.need()) * n)

    def copy(self):
        return IList(self.parts)

    def insert(self, i, x):
        self.changing()
        if i == 0 or self.concrete:
            self.parts.insert(i, x)
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        self.changing()
        if self.parts and (self.concrete or i == -1 and not isinstance(self.parts[-1], (Seg, Hidden))
                           or i == 0 and not isinstance(self.parts[0], (Seg, Hidden))):
            return self.parts.pop(i)
        self.need()
        raise IndexError('pop from empty list')

    def remove(self, x):
        self.changing()
        if not self.concrete and any(isinstance(p, Seg) for p in self.parts) and ctx().iterating:
            self.parts.append(Removed(x))
            return
        for i, p in enumerate(self.need()):
            if bool(sym_eq(p, x)):
                del self.parts[i]
                return
        raise ValueError('list.remove(x): x not in list')

    def clear(self):
        self.changing()
        self.parts = []

    def reverse(self):
        self.changing()
        self.need()
        self.parts.reverse()

    def sort(self, **kw):
        from .hooks import s_sorted
        self.parts = list(s_sorted(self, **kw).parts)

    def index(self, x, *a):
        for i, p in enumerate(self.parts):
            if isinstance(p, (Seg, Hidden)):
                if contains_fork([p], x):
                    if not isinstance(p, Seg):
                        raise Unsupported('position inside a list of unknown length')
                    head, tail = first_part(self.parts, i, x)
                    return Pos(toint(IList(head).sym_len()), list(self.parts), head, tail)
            elif p is x or bool(sym_eq(p, x)):
                if not any(isinstance(q, (Seg, Hidden)) for q in self.parts[:i]):
                    return i
                n = IList(self.parts[:i]).sym_len()
                return Pos(toint(n), list(self.parts), self.parts[:i], self.parts[i:])
        raise ValueError('not in list')

    def count(self, x):
        n = 0
        for p in self.need():
            if bool(sym_eq(p, x)):
                n += 1
        return n

    # -- observation
    def nonempty(self):
        if any(not isinstance(p, (Seg, Hidden)) for p in self.parts):
            return True
        for p in self.parts:
            if isinstance(p, Hidden):
                if p.count() is None:
                    p.read()
                if bool(p.count() > 0):
                    return True
        for p in self.parts:
            if isinstance(p, Seg) and exists_fork(p):
                return True
        return False

    def __bool__(self):
        return self.nonempty()

    def sym_len(self):
        n = 0
        extra = []
        for p in self.parts:
            if isinstance(p, Hidden):
                if p.count() is None:
                    p.read()
                extra.append(toint(p.count()))
            elif isinstance(p, Seg):
                if p.one_each():
                    extra.append(p.seq.length.z)
                else:
                    v = count_of(p)
                    if v is not None:
                        extra.append(v)
            else:
                n += 1
        if not extra:
            return n
        return mkint(z3.Sum([z3.IntVal(n)] + extra))

    def __len__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a list of unknown length outside instrumented code')

    def __contains__(self, x):
        return contains_fork(self.parts, x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and isinstance(i.start, (int, type(None))) and isinstance(i.stop, (int, type(None))):
                if self.concrete:
                    return IList(self.parts[i])
                a = i.start or 0
                b = i.stop
                if a >= 0 and b is None and not any(isinstance(p, (Seg, Hidden)) for p in self.parts[:a]):
                    return IList(self.parts[a:])
                if a >= 0 and b is not None and b >= 0 and not any(isinstance(p, (Seg, Hidden)) for p in self.parts[:b]):
                    return IList(self.parts[a:b])
            if i.step is None and isinstance(i.start, Pos) and i.stop is None:
                return IList(i.start.match(self.parts).tail)
            if i.step is None and isinstance(i.stop, Pos):
                head = i.stop.match(self.parts).head
                return IList(head)[i.start:] if i.start is not None else IList(head)
            if i.step is None and (isinstance(i.stop, SymInt) and isinstance(i.start, (int, type(None))) or
                                   isinstance(i.start, SymInt) and i.stop is None):
                # up to, or from the end
                n = toint(self.sym_len())
                if ctx().check(toint(i.stop if i.stop is not None else i.start) < n) == z3.unsat:
                    return self[i.start:] if i.stop is not None else IList([])
            if i.step is None and isinstance(i.start, (int, type(None))) and isinstance(i.stop, (int, type(None))):
                return self._slice(i.start, i.stop)
            raise Unsupported('slice of a list of unknown length')
        if isinstance(i, int):
            rng = self.parts[:i + 1] if i >= 0 else self.parts[i:]
            if len(self.parts) >= (i + 1 if i >= 0 else -i) and not any(isinstance(p, (Seg, Hidden)) for p in rng):
                return self.parts[i]
            if self.concrete:
                return self.parts[i]
            if i in (0, -1) :
                return self._end(i)
            if i > 0:
                for p in self.parts:
                    if isinstance(p, Hidden) or isinstance(p, Seg) and exists_fork(p):
                        break
                    if not isinstance(p, Seg):
                        if i == 0:
                            return p
                        i -= 1
        raise Unsupported('index into a list of unknown length')

    def _slice(self, a, b):
        """part of a list that is some items and the elements of a sequence, one each"""
        k = next(i for i, p in enumerate(self.parts) if isinstance(p, (Seg, Hidden)))
        p = self.parts[k]
        if isinstance(p, Fields) and b is None and 0 <= (a or 0) <= k:
            return IList(self.parts[a or 0:])
        if len(self.parts) > k + 1 or isinstance(p, Hidden) or not p.one_each():
            raise Unsupported('slice of a list of unknown length')
        n = p.seq.length.z + k

        def bound(x, default):
            if x is None:
                return default
            return z3.IntVal(x) if x >= 0 else n + x
        lo, hi = bound(a, z3.IntVal(0)), bound(b, n)
        if k and (a or 0) < 0 or b is not None and b < k and k:
            raise Unsupported('slice of a list of unknown length')
        d = derived(p)
        at = p.seq.idx(d.tag)
        return IList(self.parts[min(a or 0, k):k] + [Seg(d.seq, d.tag, d.cases, z3.And(at + k >= lo, at + k < hi))])

    def _end(self, i):
        ps = self.parts if i == 0 else self.parts[::-1]
        for p in ps:
            if isinstance(p, (Fields, Removed)):
                p.read()
            if isinstance(p, Hidden):
                v = p.loop.last_value(p, i)
                if v is None:
                    p.read()
                if p.count() is None or bool(p.count() > 0):
                    return v
                continue
            if not isinstance(p, Seg):
                return p
            if exists_fork(p):
                vals = p.open_some()
                if p.one_each():
                    tag = p.tag if p.cases is not None else ctx().elems[p.seq.name][-1]
                    ctx().assume(p.seq.idx(tag) == (0 if i == 0 else p.seq.length.z - 1))
                elif p.cases is not None:
                    # no other element before (after) it contributes anything
                    t = p.seq.fresh_tag('t')
                    there, here = p.seq.idx(t), p.seq.idx(p.tag)
                    p.seq.forall(t, z3.Implies(there < here if i == 0 else there > here, z3.Not(subst(p.some(), p.seq.name, p.tag, t))))
                return vals[0] if i == 0 else vals[-1]
        raise IndexError('list index out of range')

    def __setitem__(self, i, v):
        if isinstance(i, int) and self.concrete:
            self.parts[i] = v
            return
        raise Unsupported('store into a list of unknown length')

    def __delitem__(self, i):
        if self.concrete:
            del self.parts[i]
            return
        raise Unsupported('del in a list of unknown length')

    def __eq__(self, o):
        if isinstance(o, (list, IList, tuple)):
            a, b = self.parts, parts_of(o)
            if not b:
                return not self.nonempty()
            if not a:
                return not IList(b).nonempty()
            if self.concrete and not any(isinstance(p, (Seg, Hidden)) for p in b):
                if len(a) != len(b):
                    return False
                return sym_eq(tuple(a), tuple(b))
            if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                return True
            raise Unsupported('comparison of lists of unknown length')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.z))

    __hash__ = None

    def __repr__(self):
        return 'IList(%r)' % (self.parts,)

    def sym_str(self):
        if any(isinstance(p, (Seg, Hidden)) for p in self.parts) and not self.tuple_:
            from . import loops, hooks
            return cat(['[', hooks.join(', ', loops.comp('list', ('str of a list',), self, py_repr, None, {})), ']'])
        out = ['(' if self.tuple_ else '[']
        for k, p in enumerate(self.need()):
            if k:
                out.append(', ')
            out.append(py_repr(p))
        out.append(')' if self.tuple_ else ']')
        return cat(out)


def py_repr(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, SymStr):
        return SymStr((rope.Quoted(x),))
    if isinstance(x, IList):
        return x.sym_str()
    if isinstance(x, tuple):
        out = ['(']
        for k, p in enumerate(x):
            if k:
                out.append(', ')
            out.append(py_repr(p))
        out.append(',)' if len(x) == 1 else ')')
        return cat(out)
    return rope.to_text(x)


def parts_of(o):
    if isinstance(o, IList):
        return list(o.parts)
    if isinstance(o, VDict):
        return list(o.keys().parts)
    if isinstance(o, VSet):
        return list(o.items.parts)
    if isinstance(o, SymSeq):
        return list(whole(o).parts)
    if isinstance(o, (SymStr,)):
        raise Unsupported('characters of a symbolic string')
    return list(o)


def exists_fork(p):
    """does the segment contribute anything?  forks; registers the facts"""
    some = z3.simplify(p.some())
    if z3.is_false(some):
        return False
    if z3.is_true(some):
        return ctx().branch(p.seq.length.z > 0)
    return exists_where(p, some)


def count_of(p):
    """an unknown number of contributions, positive when there are any; None: there are none"""
    c = ctx()
    known = c.counts
    if id(p) in known and known[id(p)][0] is p:
        return known[id(p)][1]
    some = z3.simplify(p.some())
    if not z3.is_false(some):
        some = settle(p.seq, p.tag, some)
    if z3.is_false(some):
        v = None
    else:
        v = z3.Int(c.unique('count'))
        P = p.seq.length.z > 0 if z3.is_true(some) else exists_pred(p.seq, p.tag, some)
        c.assume_quiet(v >= 0)
        c.assume_quiet((v > 0) == P)
    known[id(p)] = (p, v)
    return v


def settle(seq, tag, f):
    """f (over the constants of element `tag`), True or False when the facts of every element say so"""
    f = z3.simplify(f)
    if z3.is_true(f) or z3.is_false(f):
        return f
    c = ctx()
    facts = list(seq.facts(Consts(seq.pre(tag)))) if seq.facts is not None else []
    for t0, cond in c.scopefacts.get(seq.name, {}).values():
        facts.append(subst(cond, seq.name, t0, tag))
    k = (f.get_id(), len(facts), tag)
    r = c.settled.get(k)
    if r is None or not r[1].eq(f):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*facts)
        g = f
        if s.check(z3.Not(f)) == z3.unsat:
            g = z3.BoolVal(True)
        elif s.check(f) == z3.unsat:
            g = z3.BoolVal(False)
        r = c.settled[k] = (g, f)
    return r[0]


def exists_where(p, f):
    """is there an element of the sequence with f (over the constants of p.tag)?  forks"""
    f = settle(p.seq, p.tag, f)
    if z3.is_false(f):
        return False
    if z3.is_true(f):
        return ctx().branch(p.seq.length.z > 0)
    P = exists_pred(p.seq, p.tag, f)
    if ctx().branch(P):
        witness(P)
        return True
    return False


TAGGED = re.compile(r'^(.*?)\[([a-z]+\d+)\]\.')


def exists_pred(seq, tag, f):
    """the formula `some element of seq satisfies f` (f over the constants of element `tag`): an
    application of a predicate defined that way to the other constants of f"""
    c = ctx()
    own = consts_of(seq.name, tag, f)
    others = sorted((z for z in const_terms(f) if not any(z.eq(o) for o in own)), key=str)
    canon = z3.substitute(f, *([(o, z3.Const('@' + str(o)[len(seq.pre(tag)):], o.sort())) for o in own] +
                               [(z, z3.Const('$%d' % i, z.sort())) for i, z in enumerate(others)]))
    key = '%s: %s / %s' % (seq.name, canon.sexpr(), ','.join(str(z.sort()) for z in others))
    if key not in c.defs:
        nm = 'some!%d' % len(c.defs)
        c.defs[key] = nm
        c.defs[nm] = (seq.name, tag, f, others)
    nm = c.defs[key]
    fn = z3.Function(nm, *([z.sort() for z in others] + [z3.BoolSort()]))
    P = fn(*others)
    know(P)
    return P


def _instance(P):
    c = ctx()
    sname, tag, f, params = c.defs[P.decl().name()]
    g = z3.substitute(f, *list(zip(params, P.children()))) if params else f
    return sname, tag, g


def know(P):
    """the definition of the predicate application, universal half"""
    c = ctx()
    if P.sexpr() in c.known:
        return
    c.known.add(P.sexpr())
    sname, tag, g = _instance(P)
    if sname in c.seqs:
        t = c.seqs[sname].fresh_tag('q')
        g = subst(g, sname, tag, t)
        c.seqs[sname].forall(t, z3.Implies(g, P))


def witness(P):
    """an element for a predicate application known to hold"""
    c = ctx()
    if ('w', P.sexpr()) in c.known:
        return
    c.known.add(('w', P.sexpr()))
    sname, tag, g = _instance(P)
    if sname not in c.seqs:
        return
    seq = c.seqs[sname]
    t = seq.fresh_tag('w')
    seq.activate(t)
    c.assume_quiet(subst(g, sname, tag, t))


def const_terms(z):
    return [e for e, _ in core.const_terms(z)]


def adopt(guards):
    """guards recorded on another path become facts of this one: the elements they mention are
    elements here too, and the predicates in them get their definitions"""
    c = ctx()
    for g in guards:
        seen = set()
        todo = [(g, True)]
        while todo:
            e, pos = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if n in c.defs:
                    know(e)
                    if pos and e.eq(g):
                        witness(e)
                m = TAGGED.match(n) if e.num_args() == 0 else None
                if m and m.group(1) in c.seqs and m.group(2) not in c.elems.get(m.group(1), ()):
                    c.seqs[m.group(1)].activate(m.group(2))
            todo.extend((x, pos and z3.is_and(e)) for x in e.children())


def contains_fork(parts, x):
    """membership; forks"""
    for p in parts:
        if isinstance(p, Hidden):
            if p.loop.hidden_contains(p, x):
                return True
            continue
        if isinstance(p, Seg):
            if seg_contains(p, x):
                return True
            continue
        if p is x or bool(sym_eq(p, x)):
            return True
    return False


def member_formula(p, test, over=False):
    """formula over the constants of p.tag: some contributed value passes test(value)"""
    alts = []
    for k in p.cases:
        if k.values and not k.exact and not over:
            raise Unsupported('membership in loop output whose condition is not exact')
        for v in k.values:
            if isinstance(v, (Seg, Hidden)):
                raise Unsupported('membership in nested loop output')
            e = tobool(test(v))
            alts.append(z3.And(*(list(k.guards) + [e if not isinstance(e, bool) else z3.BoolVal(e)])))
    f = z3.Or(*alts) if alts else z3.BoolVal(False)
    if p.rng is not None:
        f = z3.And(p.rng, f)
    return f


def derived(p):
    """identity segments as derived ones (elements without choices only)"""
    if p.cases is not None:
        return p
    t = p.seq.fresh_tag('t')
    cases = []
    for guards, v in shapes(p.seq, t):
        for f in p.maps:
            v = f(v, SymInt(p.seq.idx(t)))
        cases.append(Case(guards, [v]))
    return Seg(p.seq, t, cases, p.rng)


def shapes(seq, tag):
    """the generic element of the sequence, for every outcome of its choices: [(guards, element)]"""
    c = ctx()
    out = []
    todo = [[]]
    while todo:
        prefix = todo.pop(0)
        taken, guards = [], []
        n = len(c.trace)

        def choose(n, conds=None, label=''):
            k = prefix[len(taken)] if len(taken) < len(prefix) else 0
            if len(taken) >= len(prefix):
                todo.extend(taken + [j] for j in range(1, n))
            taken.append(k)
            if conds is not None and conds[k] is not None:
                guards.append(conds[k])
            return k
        c.choose = choose
        try:
            v = seq.make(tag)
        finally:
            del c.choose
        if len(c.trace) != n or len(out) > 64:
            raise Unsupported('membership in a sequence of elements of many shapes')
        out.append((guards, v))
    return out


def seg_contains(p, x):
    c = ctx()
    eo = c.elem_of.get(id(x))
    if eo is not None and eo[0] == p.seq.name:
        # elements of the same sequence (distinct objects): in iff its guards hold
        if p.cases is None and not p.maps and p.rng is None:
            return True
        if p.cases is not None and all(len(k.values) <= 1 and all(
                c.elem_of.get(id(v), (None, 0)) == (p.seq.name, p.tag) for v in k.values) for k in p.cases):
            return c.branch(subst(p.some(), p.seq.name, p.tag, eo[1]))
    p = derived(p)
    return exists_where(p, member_formula(p, lambda v: sym_eq(v, x)))


def key_is_concrete(k):
    if isinstance(k, (Sym, IList)):
        return False
    if isinstance(k, tuple):
        return all(key_is_concrete(x) for x in k)
    return True


class VDict:
    """insertion-ordered mapping whose keys may be symbolic"""
    __slots__ = ('entries', '__weakref__')

    def __init__(self, *a, **kw):
        self.entries = IList([])       # items (key, value)
        if a:
            self.update(a[0])
        for k, v in kw.items():
            self[k] = v

    def _find(self, k):
        """index of the entry, 'seg' value or None; forks"""
        for i, p in enumerate(self.entries.parts):
            if isinstance(p, (Seg, Hidden)):
                continue
            if p[0] is k or bool(sym_eq(p[0], k)):
                return i
        return None

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is not None:
            self.entries.parts[i] = (self.entries.parts[i][0], v)
            return
        self.entries.parts.append((k, v))

    def _sym_lookup(self, k, parts):
        for p in reversed(parts):
            if isinstance(p, Hidden):
                r = p.loop.hidden_lookup(p, k)
                if r is not None:
                    return r
            elif isinstance(p, Seg):
                r = seg_lookup(p, k)
                if r is not None:
                    return r
        return None

    def lookup(self, k):
        i = self._find(k)
        if i is not None:
            return self.entries.parts[i]
        return self._sym_lookup(k, self.entries.parts)

    def __getitem__(self, k):
        r = self.lookup(k)
        if r is None:
            raise KeyError(k)
        return r[1]

    def get(self, k, d=None):
        r = self.lookup(k)
        return d if r is None else r[1]

    def __contains__(self, k):
        return self.lookup(k) is not None

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            if not self.entries.concrete:
                raise Unsupported('removal from a map of unknown size')
            raise KeyError(k)
        del self.entries.parts[i]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if not self.entries.concrete:
                raise Unsupported('removal from a map of unknown size')
            if d:
                return d[0]
            raise KeyError(k)
        return self.entries.parts.pop(i)[1]

    def setdefault(self, k, d=None):
        r = self.lookup(k)
        if r is not None:
            return r[1]
        self.entries.parts.append((k, d))
        return d

    def update(self, o=(), **kw):
        if isinstance(o, VDict):
            for p in o.entries.parts:
                if isinstance(p, (Seg, Hidden)):
                    self.entries.parts.append(p)
                else:
                    self[p[0]] = p[1]
        elif hasattr(o, 'keys'):
            for k in o.keys():
                self[k] = o[k]
        else:
            for p in parts_of(o):
                if isinstance(p, (Seg, Hidden)):
                    self.entries.parts.append(p)
                else:
                    k, v = p
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _proj(self, f):
        out = []
        for p in self.entries.parts:
            if isinstance(p, Hidden):
                p.read()
            if isinstance(p, Seg):
                out.append(p.map(lambda v, i: f(v)))
            else:
                out.append(f(p))
        return IList(out)

    def keys(self):
        return self._proj(lambda e: e[0])

    def values(self):
        return self._proj(lambda e: e[1])

    def items(self):
        return self._proj(lambda e: e)

    def __iter__(self):
        return iter(self.keys())

    def sym_iter_parts(self):
        return self.keys().parts

    def sym_len(self):
        return self.entries.sym_len()

    def __len__(self):
        return len(self.entries)

    def __bool__(self):
        return self.entries.nonempty()

    def copy(self):
        d = VDict()
        d.entries = IList(self.entries.parts)
        return d

    def __eq__(self, o):
        if isinstance(o, VDict):
            o = {k: v for k, v in o.entries.need()} if all(key_is_concrete(p[0]) for p in o.entries.need()) else None
        if isinstance(o, dict) and self.entries.concrete:
            if len(o) != len(self.entries.parts):
                return False
            for k, v in o.items():
                r = self.lookup(k)
                if r is None or not bool(sym_eq(r[1], v)):
                    return False
            return True
        raise Unsupported('comparison of maps')

    __hash__ = None

    def __repr__(self):
        return 'VDict(%r)' % (self.entries.parts,)


def seg_lookup(p, k):
    """entry of a map segment with that key, or None; forks"""
    from .core import PathDone
    c = ctx()
    eo = c.elem_of.get(id(k)) if hasattr(k, '__dict__') else None
    if eo is not None and eo[0] == p.seq.name and p.cases is not None and all(
            len(x.values) <= 1 and all(c.elem_of.get(id(v[0]), (None, 0)) == (p.seq.name, p.tag) and
                                       isinstance(v[1], (bool, int, str, type(None))) for v in x.values) for x in p.cases) and \
            len({repr(v[1]) for x in p.cases for v in x.values}) <= 1:
        # the element itself is (or is not) a key
        if c.branch(subst(p.some(), p.seq.name, p.tag, eo[1])):
            for x in p.cases:
                for v in x.values:
                    return (k, v[1])
        return None
    p = derived(p)
    f = z3.simplify(member_formula(p, lambda v: sym_eq(v[0], k)))
    if z3.is_false(f):
        return None
    if c.branch(exists_pred(p.seq, p.tag, f)):
        vals, tag, idx = p.open()
        for v in vals[::-1]:
            if bool(sym_eq(v[0], k)):
                return v
        raise PathDone
    return None


class VSet:
    """set whose elements may be symbolic (iteration in an unspecified order is refused)"""
    __slots__ = ('items', 'removed', '__weakref__')

    def __init__(self, o=()):
        self.items = IList([])
        self.removed = IList([])      # values removed from symbolic parts
        for p in parts_of(o):
            if isinstance(p, (Seg, Hidden)):
                self.items.parts.append(p)
            else:
                self.add(p)

    def add(self, x):
        for p in self.items.parts:
            if not isinstance(p, (Seg, Hidden)) and (p is x or bool(sym_eq(p, x))):
                return
        if self.removed.parts:
            raise Unsupported('add after remove')
        self.items.parts.append(x)

    def update(self, *os):
        for o in os:
            for p in parts_of(o):
                if isinstance(p, (Seg, Hidden)):
                    self.items.parts.append(p)
                else:
                    self.add(p)

    def __contains__(self, x):
        if self.removed.parts and contains_fork(self.removed.parts, x):
            return False
        return contains_fork(self.items.parts, x)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self._rem(x)

    def discard(self, x):
        if x in self:
            self._rem(x)

    def _rem(self, x):
        self.removed.parts.append(x)

    def __iter__(self):
        raise Unsupported('iteration over a set (unspecified order)')

    def sym_iter_parts(self):
        if ctx().allow_set_iter:
            if self.removed.parts:
                raise Unsupported('iteration after removal')
            return self.items.parts
        raise Unsupported('iteration over a set (unspecified order)')

    def sym_len(self):
        if not self.items.parts:
            return 0
        if self.items.concrete and not self.removed.parts:
            return len(self.items.parts)
        raise Unsupported('size of a symbolic set')

    def __len__(self):
        return self.sym_len()

    def __bool__(self):
        if self.removed.parts:
            ctx().inexact = True
            return ctx().choose(2) == 0       # unknown
        return self.items.nonempty()

    def __sub__(self, o):
        r = VSet()
        r.items = IList(self.items.parts)
        r.removed = IList(self.removed.parts + parts_of(o))
        return r

    def __or__(self, o):
        r = VSet()
        if self.removed.parts:
            raise Unsupported('|')
        r.items = IList(self.items.parts)
        r.update(o)
        return r

    __hash__ = None

    def __repr__(self):
        return 'VSet(%r - %r)' % (self.items.parts, self.removed.parts)


class SymStream:
    """output stream: an append-only list of texts"""
    __slots__ = ('chunks', 'at', '__weakref__')

    def __init__(self, *a):
        self.chunks = IList([])
        self.at = None

    def write(self, s):
        if self.at is not None:
            raise Unsupported('write after a move in the stream')
        self.chunks.parts.append(s)

    def getvalue(self):
        return text_of(self.chunks.parts)

    def read(self):
        return self.getvalue() if self.at in (None, 0) else ''.join(self.readlines())

    def seek(self, n, how=0):
        if n or how:
            raise Unsupported('a move in the stream')
        self.at = 0

    def readline(self):
        s = self.getvalue()
        if type(s) is not str or self.at is None:
            raise Unsupported('lines of an unknown text')
        e = s.find('\n', self.at) + 1 or len(s)
        r, self.at = s[self.at:e], e
        return r

    def readlines(self):
        r = []
        while not r or r[-1]:
            r.append(self.readline())
        return r[:-1]

    def flush(self):
        pass

    def close(self):
        pass


def text_of(parts):
    out = []
    for p in parts:
        if isinstance(p, Hidden):
            p.read()
        if isinstance(p, Seg):
            p = derived(p)
            out.append(SymStr((rope.Rep(p, [(k.guards, text_of(k.values)) for k in p.cases]),)))
        else:
            out.append(p)
    return cat(out)
