"""Loops over sequences of unknown length: one generic iteration, invariants found by
inference and proved inductive, and element-wise summaries of what the loop appends.

A loop over a symbolic sequence is cut: the path that executes one generic iteration starts
from an arbitrary state reachable by earlier iterations (everything the body modifies is
havocked, constrained only by the invariant), must re-establish the invariant, and ends; the
path that leaves the loop continues from the havocked state at the end of the sequence.
What is modified is discovered by executing the body (and re-exploring until stable)."""
import sys
import z3
from .core import (Sym, SymInt, SymBool, SymFloat, Unsupported, Restart, PathDone, ctx, toint, tobool, free_consts, mkint)
from .rope import SymStr, Atom, Dec, Flo, Quoted, Rep, Join, Obj
from .values import (retagged, settle, Removed, cancel, IList, VDict, VSet, SymStream, Seg, Hidden, Case, SymSeq, Consts, subst, sym_eq, derived,
                     member_formula)

HV = 'hv!'


def zint(x):
    return x if isinstance(x, z3.ExprRef) else toint(x)


class Poison:
    """a value the loop abstraction knows nothing about"""

    def __init__(self, what):
        object.__setattr__(self, '_w', what)

    def _no(self, *a, **k):
        raise Unsupported('value modified by a loop is not tracked: %s' % object.__getattribute__(self, '_w'))
    __getattr__ = __bool__ = __iter__ = __eq__ = __ne__ = __len__ = __call__ = __getitem__ = __add__ = __radd__ = _no
    __contains__ = __lt__ = __gt__ = __le__ = __ge__ = __sub__ = __rsub__ = __mod__ = __hash__ = __str__ = _no


class Info:
    """what is known about a loop (kept over re-explorations)"""

    def __init__(self):
        self.locals = {}        # name -> set of shapes
        self.attrs = {}         # (path, attr) -> set of shapes
        self.grows = set()      # paths of lists appended to
        self.stateful = set()   # paths of lists whose contents depend on more than the element
        self.dead = set()       # refuted invariant candidates
        self.assumed = False    # candidates were assumed in this exploration
        self.query = set()      # paths whose earlier contributions were asked for
        self.prev = {}          # loop arrival -> {path: [Case]}, tag  (from the last round)
        self.items = []         # (tag, guards, value) of iterations whose value is kept in a variable
        self.vals = {}          # (path, attr) / local: for constants
        self.early = False      # some iteration leaves the loop
        self.complete = {}      # loop arrival -> when an iteration does not leave the loop (from the last round)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        if isinstance(a, SymStr):
            return a.same(b)
        return type(a) is type(b) and a.z.eq(b.z)
    if isinstance(a, (int, str, bool, float, type(None), bytes)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


STATE_TYPES = (IList, VDict, VSet, SymStream)


def tracked(o):
    if isinstance(o, type) or isinstance(o, Poison):
        return False
    m = type(o).__module__ or ''
    return (m.startswith('ctypeslib') or getattr(type(o), '_vc_state', False)) and hasattr(o, '__dict__')


def walk(roots):
    """heap reachable from the roots: [(path, object)]"""
    out = []
    seen = {}
    todo = [((n,), v, 0) for n, v in roots.items()]
    while todo:
        path, o, d = todo.pop(0)
        if isinstance(o, Sym) or o is None or isinstance(o, (int, str, float, bytes, type, Seg, Hidden)):
            continue
        if id(o) in seen:
            continue
        if isinstance(o, IList):
            seen[id(o)] = o
            out.append((path, o))
            if d < 6:
                for i, p in enumerate(o.parts[:40]):
                    if not isinstance(p, (Seg, Hidden)):
                        todo.append((path + ('#%d' % i,), p, d + 1))
        elif isinstance(o, VDict):
            seen[id(o)] = o
            todo.append((path + ('entries',), o.entries, d))
        elif isinstance(o, VSet):
            seen[id(o)] = o
            todo.append((path + ('items',), o.items, d))
            todo.append((path + ('removed',), o.removed, d))
        elif isinstance(o, SymStream):
            seen[id(o)] = o
            todo.append((path + ('chunks',), o.chunks, d))
        elif isinstance(o, (list, set, dict)):
            seen[id(o)] = o
            out.append((path, o))
            if d < 5 and not isinstance(o, set):
                items = list(o.items())[:60] if isinstance(o, dict) else list(enumerate(o))[:60]
                for k, v in items:
                    todo.append((path + (str(k)[:40],), v, d + 1))
        elif isinstance(o, tuple):
            for i, v in enumerate(o[:20]):
                todo.append((path + ('#%d' % i,), v, d + 1))
        elif tracked(o):
            seen[id(o)] = o
            out.append((path, o))
            if d < 5:
                for k, v in vars(o).items():
                    todo.append((path + (k,), v, d + 1))
    return out


def initial(o, s, attr):
    """attribute value before the loop, class defaults included"""
    return s[attr] if attr in s else getattr(type(o), attr, None)


def snap(o):
    if isinstance(o, IList):
        return list(o.parts)
    if isinstance(o, list):
        return list(o)
    if isinstance(o, set):
        return set(o)
    if isinstance(o, dict):
        return dict(o)
    return dict(vars(o))


def deep_consts(v, acc, depth=4, seen=None):
    """names of the solver constants a value depends on"""
    seen = set() if seen is None else seen
    if id(v) in seen or depth < 0:
        return acc
    seen.add(id(v))
    if isinstance(v, (SymInt, SymBool, SymFloat)):
        acc |= free_consts(v.z)
    elif isinstance(v, SymStr):
        for p in v.p:
            if isinstance(p, (Atom, Dec, Flo)):
                acc |= free_consts(p.z)
            elif isinstance(p, Quoted):
                deep_consts(p.s, acc, depth, seen)
            elif isinstance(p, Rep):
                deep_consts(p.seg, acc, depth, seen)
            elif isinstance(p, Join):
                for x in p.parts:
                    deep_consts(x, acc, depth, seen)
            elif isinstance(p, Obj):
                deep_consts(p.o, acc, depth - 1, seen)
    elif isinstance(v, Seg):
        for k in v.cases or ():
            for g in k.guards:
                acc |= free_consts(g)
            for x in k.values:
                deep_consts(x, acc, depth, seen)
    elif isinstance(v, Removed):
        deep_consts(v.value, acc, depth, seen)
    elif isinstance(v, Hidden):
        acc.add(HV + 'hidden')
    elif isinstance(v, IList):
        for p in v.parts:
            deep_consts(p, acc, depth, seen)
    elif isinstance(v, (tuple, list)):
        for p in v:
            deep_consts(p, acc, depth, seen)
    elif isinstance(v, VDict):
        deep_consts(v.entries, acc, depth, seen)
    elif isinstance(v, VSet):
        deep_consts(v.items, acc, depth, seen)
    elif isinstance(v, SymStream):
        deep_consts(v.chunks, acc, depth, seen)
    elif tracked(v):
        for x in list(vars(v).values()):
            deep_consts(x, acc, depth - 1, seen)
    return acc


class Plain:
    """loop over a concrete iterable"""
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Loop:
    """loop over one symbolic segment"""
    sym = True

    def __init__(self, key, seg):
        self.key, self.seg = key, seg
        c = ctx()
        self.info = c.loopinfo.setdefault(key, Info())
        self.h = {}
        self.unset = ()

    # ------------------------------------------------------------ entry
    def enter(self, loc, assigned):
        c = ctx()
        info = self.info
        self.c = c
        self.assigned = assigned
        loc = {k: v for k, v in loc.items() if not k.startswith('__vc')}
        self.entry_locals = {n: loc[n] for n in assigned if n in loc}
        self.heap = walk(loc)
        self.snaps = [(path, o, snap(o)) for path, o in self.heap]
        self.byp = {path: (o, s) for path, o, s in self.snaps}
        self.arrival = (self.key, tuple(k for k, _ in c.trace))
        self.records = c.records.setdefault(self.arrival, {'cases': {}, 'guards': [], 'tag': None, 'exact': True})
        self.monitors = {}
        # states of the monitors on entry
        for path in info.stateful:
            if path in self.byp:
                o = self.byp[path][0]
                ms = {}
                for m in c.monitors:
                    st = monitor_state(m, o.parts)
                    if st is not None:
                        ms[m.name] = (m, st)
                self.monitors[path] = ms
        entry_terms = self._terms(self._entry_value, self.monitors, 'entry')
        self._prune(entry_terms, 'arrival')
        self.iterating = (c.choose(2, label='loop') == 0)
        if not self.iterating:
            self._before_exit()
            self._havoc()
            return
        c.inexact = False       # within the iteration
        c.iterating = True
        self._havoc()

    def _entry_value(self, kind, key):
        if kind == 'L':
            return self.entry_locals.get(key)
        path, attr = key
        return initial(*self.byp[path], attr) if path in self.byp else None

    def _fresh(self, what, shapes, entry, term=None):
        c = ctx()
        if shapes <= {'int'} and self.iterating and term is not None and ('==', term, 'IDX') not in self.info.dead:
            self.info.assumed = True
            return SymInt(self.idxvar)
        name = c.unique('%s%s!%s' % (HV, self.key, what))
        if shapes <= {'int'}:
            return SymInt(z3.Int(name))
        if shapes <= {'bool'}:
            return SymBool(z3.Bool(name))
        if 'opaque' in shapes:
            return Poison(what)
        opts = sorted(shapes)
        c.inexact = True
        k = opts[c.choose(len(opts))] if len(opts) > 1 else opts[0]
        if k == 'int':
            return SymInt(z3.Int(name))
        if k == 'bool':
            return SymBool(z3.Bool(name))
        if k == 'none':
            return None
        if k == 'str':
            return SymStr((Atom(name, 'text'),))
        if k == 'same':
            return entry
        if k == 'elem':
            e, tag, idx = self.seg.seq.elem('p')
            return e
        if k == 'item':
            return self._earlier_item(c.choose(len(self.info.items)) if len(self.info.items) > 1 else 0)
        return Poison(what)

    def _earlier_item(self, k):
        """a value an earlier iteration ran with"""
        from .hooks import retag
        c = ctx()
        seq = self.seg.seq
        tag, guards, v, _ = self.info.items[k]
        t = seq.fresh_tag('p')
        seq.activate(t)
        if self.iterating:
            c.assume_quiet(seq.idx(t) < self.idxvar)
        for g in guards:
            c.assume_quiet(subst(g, seq.name, tag, t))
        if c.check() == z3.unsat:
            raise PathDone
        return retag(v, seq.name, tag, t)

    def _havoc(self):
        c = ctx()
        info = self.info
        c.havoced = c.havoced or bool(info.locals or info.attrs or info.stateful)
        seq = self.seg.seq
        self.cur = {}
        self.ghost = {}
        if self.iterating:
            self.vals, self.tag, self.idx = None, None, None
            if self.records.get('pretag') is None:
                self.records['pretag'] = (seq.fresh_tag() if self.seg.cases is None or self.seg.tag in c.elems.get(seq.name, ()) else self.seg.tag)
            self.pretag = self.records['pretag']
            if self.seg.cases is not None and self.pretag != self.seg.tag:
                self.seg = retagged(self.seg, self.pretag)      # (its generic element is an actual one here)
            self.idxvar = seq.idx(self.pretag)
            if seq.ghost is not None:
                for g in seq.ghost.init:
                    self.ghost[g] = z3.Int(c.unique(HV + '%s!ghost!%s' % (self.key, g)))
        # earlier contributions
        for path in info.grows:
            if path not in self.byp:
                continue
            o, s = self.byp[path]
            if path in info.stateful:
                ms = {}
                for mn, (m, st) in self.monitors[path].items():
                    ms[mn] = (m, {f: (SymBool(z3.Bool(c.unique(HV + mn + f))) if isinstance(v, (bool, SymBool))
                                      else SymInt(z3.Int(c.unique(HV + mn + f)))) for f, v in st.items()})
                hid = Hidden(self, path, ms)
                o.parts = [hid]
                self.cur[path] = ms
            elif self.iterating:
                o.parts.append(Hidden(self, path))
            else:
                cases = self.records['cases'].get(path)
                make_exact(cases, self.seg.seq, self.records['tag'])
                if cases is None and self.records['tag'] is None:
                    continue        # no iteration completes
                out = Seg(seq, self.records['tag'], merged(cases or []), self._rng(self.records['tag']))
                if any(isinstance(v, Removed) for k in out.cases for v in k.values):
                    if any(isinstance(p, Removed) for p in o.parts):
                        raise Unsupported('list read while items are removed from it')
                    o.parts = cancel(o.parts, out)
                else:
                    o.parts.append(out)
        self.attrs_now = {}
        for (path, attr), shapes in info.attrs.items():
            if path in self.byp:
                o, s = self.byp[path]
                v = self._fresh('.'.join(path) + '.' + attr, shapes, initial(o, s, attr), 'A:%s.%s' % ('.'.join(path), attr))
                self.attrs_now[(path, attr)] = v
                o.__dict__[attr] = v
        self.h = {}
        for n, shapes in info.locals.items():
            if n in self.entry_locals:
                self.h[n] = self._fresh(n, shapes, self.entry_locals[n], 'L:' + n)
        self.snaps2 = [(path, o, snap(o)) for path, o, _ in self.snaps]
        heap = {id(o) for _, o in self.heap}
        self.unseen = [(o, list(o.parts)) for o in c.ilists if id(o) not in heap] if self.iterating else []
        if self.iterating:
            self.n0 = None
        terms = self._terms(lambda k, key: self.h.get(key) if k == 'L' else self.attrs_now.get(key),
                            self.cur, 'start' if self.iterating else 'end')
        alive = self._alive(terms)
        if alive:
            info.assumed = True
        for cand in alive:
            c.assume_quiet(self._formula(cand, terms))
        if c.check() == z3.unsat:
            raise PathDone

    # ------------------------------------------------------------ invariants
    def _terms(self, value, monitors, when):
        """integer and boolean terms of the state"""
        seq = self.seg.seq
        T = {}
        B = {}
        for n, shapes in self.info.locals.items():
            if shapes <= {'int'} and n in self.entry_locals:
                z = toint(value('L', n))
                if z is not None:
                    T['L:' + n] = z
            if shapes <= {'bool'} and n in self.entry_locals:
                v = value('L', n)
                B['L:' + n] = v
        for (path, attr), shapes in self.info.attrs.items():
            if shapes <= {'int'} and path in self.byp:
                z = toint(value('A', (path, attr)))
                if z is not None:
                    T['A:%s.%s' % ('.'.join(path), attr)] = z
            if shapes <= {'bool'} and path in self.byp:
                B['A:%s.%s' % ('.'.join(path), attr)] = value('A', (path, attr))
        for path, ms in monitors.items():
            for mn, (m, st) in ms.items():
                for f, v in st.items():
                    k = 'M:%s:%s.%s' % ('.'.join(path), mn, f)
                    if isinstance(v, (bool, SymBool)):
                        B[k] = v
                    else:
                        T[k] = toint(v)
        G = {'0': z3.IntVal(0)}
        if when == 'entry':
            G['IDX'] = z3.IntVal(0)
        elif when == 'start':
            # index of the generic element: fixed when it is opened
            G['IDX'] = self.idxvar
        elif when == 'end':
            G['IDX'] = seq.length.z
        elif when == 'next':
            G['IDX'] = self.idx + 1
        if seq.ghost is not None:
            for g, v in seq.ghost.init.items():
                if when == 'entry':
                    G['G:' + g] = z3.IntVal(v)
                elif when == 'start':
                    G['G:' + g] = self.ghost[g]
                elif when == 'end':
                    G['G:' + g] = seq.total[g].z
                else:
                    G['G:' + g] = zint(self.ghost_next[g])
        return T, B, G

    def _candidates(self, terms):
        T, B, G = terms
        names = sorted(T)
        out = []
        for i, a in enumerate(names):
            for b in names[i + 1:] + sorted(G):
                out.append(('==', a, b))
            for b in sorted(G):
                out.append(('>=', a, b))
                if b != '0':
                    out.append(('<=', a, b))
            for b in names:
                if b != a:
                    out.append(('>=', a, b))
        for a in names + sorted(G):
            if a not in ('0', 'IDX'):
                out.append(('mod8', a, None))
        for b in sorted(B):
            out.append(('true', b, None))
            out.append(('false', b, None))
        for g in sorted(G):
            if g != '0':
                for b in sorted(G):
                    if b != g:
                        out.append(('>=', g, b))
        return out

    def _alive(self, terms):
        d = self.info.dead
        return [k for k in self._candidates(terms) if k not in d]

    def _formula(self, cand, terms):
        T, B, G = terms
        op, a, b = cand
        if op in ('true', 'false'):
            z = tobool(B[a])
            z = z3.BoolVal(z) if isinstance(z, bool) else z
            return z if op == 'true' else z3.Not(z)
        x = T[a] if a in T else G[a]
        if op == 'mod8':
            return x % 8 == 0
        y = T[b] if b in T else G[b]
        x = z3.IntVal(x) if isinstance(x, int) else x
        y = z3.IntVal(y) if isinstance(y, int) else y
        assert x is not None and y is not None, (a, b)
        return x == y if op == '==' else (x >= y if op == '>=' else x <= y)

    def _prune(self, terms, where):
        c = ctx()
        alive = self._alive(terms)
        if not alive:
            return
        fs = [self._formula(k, terms) for k in alive]
        if c.check(z3.Not(z3.And(*fs))) == z3.unsat:
            return
        dead = [k for k, f in zip(alive, fs) if c.check(z3.Not(f)) != z3.unsat]
        if dead:
            self.info.dead.update(dead)
            if self.info.assumed:
                raise Restart

    # ------------------------------------------------------------ iteration
    def __iter__(self):
        c = ctx()
        if not self.iterating:
            return
        vals, self.tag, self.idx = self.seg.open_iter(self)
        self.vals = vals
        for v in vals:
            try:
                yield v
            except GeneratorExit:       # break, return or an exception
                self._early_exit()
                raise
            # the frame of the code under verification is the caller
            self.frame = sys._getframe(1)
        if not vals:
            self.frame = sys._getframe(1)
        self._end_of_iteration(self.frame.f_locals)
        raise PathDone

    def _shape(self, v, entry):
        if isinstance(v, (bool, SymBool)):
            return 'bool'
        if isinstance(v, (int, SymInt)):
            return 'int'
        if isinstance(v, (str, SymStr)):
            return 'str'
        if v is None:
            return 'none'
        eo = ctx().elem_of.get(id(v))
        if eo is not None and eo[0] == self.seg.seq.name:
            return 'elem'
        if v is entry:
            return 'same'
        if any(v is x for x in self.vals):
            c = ctx()
            name = self.seg.seq.name
            gs = [g for g in c.conds[self.n0:] if not any(x.startswith(HV) for x in free_consts(g))]
            key = (type(v), sorted(str(subst(g, name, self.tag, '@')) for g in gs))
            if key not in [x[3] for x in self.info.items]:
                self.info.items.append((self.tag, gs, v, key))
            return 'item'
        return 'opaque'

    def _end_of_iteration(self, loc):
        c = ctx()
        info = self.info
        changed = False
        # locals
        for n in self.assigned:
            if n not in self.entry_locals:
                continue
            start = self.h[n] if n in self.h else self.entry_locals[n]
            now = loc.get(n)
            if not same(start, now):
                changed |= self._note(info.locals, n, now, self.entry_locals[n])
        # heap
        for o, parts in self.unseen:
            if len(o.parts) != len(parts) or any(a is not b for a, b in zip(o.parts, parts)):
                raise Unsupported('a list the loop abstraction cannot see is modified by a loop')
        guards = [g for g in c.conds[self.n0:]]
        appended = {}
        for (path, o, s) in self.snaps2:
            if isinstance(o, IList):
                now = o.parts
                if len(now) == len(s) and all(a is b for a, b in zip(now, s)):
                    if path in info.grows:
                        appended[path] = []
                    continue
                if len(now) >= len(s) and all(a is b for a, b in zip(s, now)):
                    if path not in info.grows:
                        info.grows.add(path)
                        changed = True
                    appended[path] = list(now[len(s):])
                else:
                    raise Unsupported('list %s is rewritten by a loop' % '.'.join(path))
            elif isinstance(o, (list, dict, set)):
                if snap(o) != s:
                    raise Unsupported('plain container %s modified by a loop' % '.'.join(path))
            else:
                now = vars(o)
                for a in set(now) | set(s):
                    v0, v1 = initial(o, s, a), initial(o, now, a)
                    if not same(v0, v1):
                        e0 = initial(*self.byp[path], a)
                        changed |= self._note(info.attrs, (path, a), v1, e0)
        if changed:
            raise Restart
        # element-wise or not
        base = [g for g in guards]
        gc = set()
        for g in base:
            gc |= free_consts(g)
        for path, vals in appended.items():
            if path in info.stateful:
                continue
            cs = set(gc) if vals or True else set()
            old = {id(o) for _, o in self.heap}     # references to objects older than the loop
            for v in vals:
                deep_consts(v, cs, seen=set(old))
            if any(x.startswith(HV) for x in cs) and (vals or any(x.startswith(HV) for x in gc)):
                import os
                if os.environ.get('DBG'):
                    print('STATEFUL', path, len(vals), [x for x in cs if x.startswith(HV)], guards)
                info.stateful.add(path)
                raise Restart
        # monitors: step over the appended values
        ms2 = {}
        for path, ms in self.cur.items():
            ms2[path] = {}
            for mn, (m, st) in ms.items():
                now = st
                for v in appended.get(path, []):
                    now = m.step(now, v)
                ms2[path][mn] = (m, now)
        if self.seg.seq.ghost is not None:
            L = Consts(self.seg.seq.pre(self.tag))
            self.ghost_next = self.seg.seq.ghost.step(self.ghost, L)
        terms = self._terms(lambda k, key: loc.get(key) if k == 'L' else vars(self.byp[key[0]][0]).get(key[1]),
                            ms2, 'next')
        self._prune_end(terms)
        r = self.records
        if r['tag'] is None:
            r['tag'] = self.tag
        for path, vals in appended.items():
            if path not in info.stateful:
                have = r['cases'].setdefault(path, [])
                # (other paths through the function come here with the same iterations)
                if not any(same_guards(k.guards, guards) and k.exact == (not c.inexact) and len(k.values) == len(vals) and
                           all(alike(p, q) for p, q in zip(k.values, vals)) for k in have):
                    have.append(Case(list(guards), list(vals), not c.inexact))
        if not any(same_guards(g, guards) for g in r['guards']):
            r['guards'].append(list(guards))
        r['exact'] &= not c.inexact

    def _prune_end(self, terms):
        c = ctx()
        alive = self._alive(terms)
        if not alive:
            return
        fs = [self._formula(k, terms) for k in alive]
        if c.check(z3.Not(z3.And(*fs))) == z3.unsat:
            return
        dead = [k for k, f in zip(alive, fs) if c.check(z3.Not(f)) != z3.unsat]
        if not dead:
            raise Unsupported('invariant check undecided')
        self.info.dead.update(dead)
        raise Restart

    def _note(self, table, key, now, entry):
        sh = {self._shape(now, entry), self._shape(entry, entry)}
        old = table.get(key, set())
        if sh <= old:
            return False
        table[key] = old | sh
        return True

    # ------------------------------------------------------------ exit
    def _completes(self):
        """(tag, formula over the element's constants): its iteration reaches the end of the body"""
        r = self.records
        if r['tag'] is None:
            return self.pretag_of(r), z3.BoolVal(False)
        gs = []
        for g in r['guards']:
            cs = set()
            for x in g:
                cs |= free_consts(x)
            if any(x.startswith(HV) for x in cs) or not r['exact']:
                return None
            gs.append(z3.And(*g) if g else z3.BoolVal(True))
        return r['tag'], z3.simplify(z3.Or(*gs))

    @staticmethod
    def pretag_of(r):
        return r.get('pretag')

    def _early_exit(self):
        """the loop is left in this iteration: the earlier ones completed"""
        if any(isinstance(p, Removed) for _, o in self.heap if isinstance(o, IList) for p in o.parts):
            raise Unsupported('items removed in a loop that is left early')
        if self.seg.cases is not None or self.seg.rng is not None:
            return
        k = self.info.complete.get(self.arrival)
        if k is None:
            if self.arrival not in self.info.complete:
                self.info.early = True
            return
        tag, f = k
        seq = self.seg.seq
        if not z3.is_true(f) and tag is not None:
            seq.forall(tag, z3.Implies(seq.idx(tag) < self.idx, f))

    def _rng(self, tag):
        """the part of the sequence that is iterated over, on the element `tag`"""
        if self.seg.rng is None or tag is None:
            return None
        return subst(self.seg.rng, self.seg.seq.name, self.seg.tag, tag)

    def _before_exit(self):
        c = ctx()
        info = self.info
        r = self.records
        if info.early and self.arrival not in info.complete:
            info.complete[self.arrival] = self._completes()
            raise Restart
        if info.query and r['tag'] is not None:
            if self.arrival not in info.prev:
                info.prev[self.arrival] = (r['tag'], {p: list(k) for p, k in r['cases'].items()})
                raise Restart
        if r['tag'] is not None:
            gs = []
            for g in r['guards']:
                cs = set()
                for x in g:
                    cs |= free_consts(x)
                if any(x.startswith(HV) for x in cs) or not r['exact']:
                    c.inexact = True
                    return
                gs.append(z3.And(*g) if g else z3.BoolVal(True))
            if gs and self.seg.rng is not None:
                gs.append(z3.Not(self._rng(r['tag'])))
            f = settle(self.seg.seq, r['tag'], z3.Or(*gs)) if gs else z3.BoolVal(False)
            if not z3.is_true(f):
                from .values import exists_pred
                c.assume(z3.Not(exists_pred(self.seg.seq, r['tag'], z3.simplify(z3.Not(f)))))
        else:
            # no iteration reaches its end: the sequence is empty here
            c.assume(self.seg.seq.length.z == 0) if self.seg.cases is None and self.seg.rng is None else None

    # ------------------------------------------------------------ reads of earlier contributions
    def stateful_read(self, path):
        if path in self.info.stateful:
            raise Unsupported('contents of %s depend on the loop state' % '.'.join(path))
        self.info.stateful.add(path)
        raise Restart

    def hidden_contains(self, hid, x):
        return self._hidden_query(hid, lambda v: sym_eq(v, x), x) is not None

    def hidden_lookup(self, hid, k):
        r = self._hidden_query(hid, lambda v: sym_eq(v[0], k), k)
        return (k, Poison('map value stored by an earlier iteration')) if r is not None else None

    def _hidden_query(self, hid, test, x):
        memo = self.__dict__.setdefault('memo', {})
        k = (hid.key, repr(x) if isinstance(x, (Sym, str, int)) else id(x))
        if k not in memo:
            memo[k] = (self._hidden_query1(hid, test), x)
        return memo[k][0]

    def _hidden_query1(self, hid, test):
        c = ctx()
        info = self.info
        path = hid.key
        if path in info.stateful:
            raise Unsupported('query of a list that depends on the loop state')
        prev = info.prev.get(self.arrival)
        if path not in info.query:
            info.query.add(path)
        if prev is None:
            c.inexact = True
            return True if c.choose(2) == 0 else None
        tag, cases = prev
        seg = Seg(self.seg.seq, tag, cases.get(path, []))
        f = z3.simplify(member_formula(seg, test, over=True))
        if z3.is_false(f):
            return None
        t = self.seg.seq.fresh_tag('j')
        # feasibility of an earlier element
        c.solver.push()
        n = len(c.conds)
        nact = list(c.elems.get(self.seg.seq.name, []))
        try:
            self.seg.seq.activate(t)
            g = subst(f, self.seg.seq.name, tag, t)
            ok = c.check(g, self.seg.seq.idx(t) < self.idx) != z3.unsat
        finally:
            c.solver.pop()
            del c.conds[n:]
            c.elems[self.seg.seq.name] = nact
        if not ok:
            return None
        c.inexact = True
        return True if c.choose(2) == 0 else None

    def last_value(self, hid, i):
        for mn, (m, st) in hid.monitors.items():
            f = m.last
            if f is not None and i == -1:
                return f(st)
        return None


def merged(cases):
    """iterations that contribute nothing are one case"""
    none = [k for k in cases if not k.values and k.exact]
    if len(none) < 2:
        return list(cases)
    g = z3.simplify(z3.Or(*[z3.And(*k.guards) if k.guards else z3.BoolVal(True) for k in none]))
    return [k for k in cases if k not in none] + [Case([] if z3.is_true(g) else [g], [])]


def same_guards(a, b):
    return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))


def alike(a, b, depth=8):
    """equal values, built in two explorations"""
    if a is b:
        return True
    if type(a) is not type(b) or depth < 0:
        return False
    if isinstance(a, Sym) or isinstance(a, (int, str, bool, float, type(None), bytes)):
        return same(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, depth - 1) for x, y in zip(a, b))
    if isinstance(a, Removed):
        return alike(a.value, b.value, depth)
    if isinstance(a, IList):
        return alike(a.parts, b.parts, depth)
    if (tracked(a) or (type(a).__module__ or '').startswith('specs')) and hasattr(a, '__dict__'):
        x, y = vars(a), vars(b)
        return x.keys() == y.keys() and all(alike(x[k], y[k], depth - 1) for k in x)
    return False


def make_exact(cases, seq, tag):
    """the cases cover everything an iteration may do; when cases with different contributions exclude each
    other, the contribution is determined by the element"""
    if not cases or all(k.exact for k in cases):
        return
    groups = []
    for k in cases:
        for g in groups:
            if len(g[0].values) == len(k.values) and all(alike(p, q) for p, q in zip(g[0].values, k.values)):
                g.append(k)
                break
        else:
            groups.append([k])
    if len(groups) > 12:
        return
    fs = [z3.Or(*[z3.And(*k.guards) if k.guards else z3.BoolVal(True) for k in g]) for g in groups]
    for i, x in enumerate(fs):
        for y in fs[i + 1:]:
            if not z3.is_false(settle(seq, tag, z3.And(x, y))):
                return
    for k in cases:
        k.exact = True


def _open_iter(self, loop):
    """open the generic element for an iteration: element facts and ghost preconditions are
    assumptions, the choice of the case is a guard"""
    c = ctx()
    seq = self.seq
    tag = loop.pretag
    idx = seq.activate(tag)
    if self.cases is not None and self.rng is not None:
        c.assume_quiet(self.rng)
    if seq.ghost is not None and seq.ghost.pre is not None:
        for f in seq.ghost.pre(loop.ghost, Consts(seq.pre(tag))):
            c.assume_quiet(f)
    # the last element ends the fold at the totals
    if seq.ghost is not None:
        nxt = seq.ghost.step(loop.ghost, Consts(seq.pre(tag)))
        for g in seq.ghost.init:
            c.assume_quiet(z3.Implies(idx == seq.length.z - 1, zint(nxt[g]) == seq.total[g].z))
    if c.check() == z3.unsat:
        raise PathDone
    loop.n0 = len(c.conds)
    if self.cases is None:
        v = seq.make(tag)
        for f in self.maps:
            v = f(v, SymInt(idx))
        vals = [v]
    else:
        if not self.cases:
            raise PathDone
        k = c.choose(len(self.cases), [z3.And(*x.guards) if x.guards else z3.BoolVal(True) for x in self.cases])
        vals = list(self.cases[k].values)
    if any(isinstance(v, (Seg, Hidden)) for v in vals):
        raise Unsupported('iteration over nested loop output')
    return vals, tag, idx


Seg.open_iter = _open_iter


def monitor_state(m, parts):
    """fold of the monitor over the parts of a list; None when it does not apply"""
    st = dict(m.init)
    for p in parts:
        if isinstance(p, Hidden):
            if m.name in p.monitors:
                st = dict(p.monitors[m.name][1])
                continue
            return None
        if isinstance(p, Seg):
            return None
        st = m.step(st, p)
    return st


def comp(kind, key, it, elt, cond, loc):
    """comprehension with one generator: a loop appending to a fresh list"""
    from .hooks import iter_parts
    res = IList([])
    for part in iter_parts(it):
        if isinstance(part, Hidden):
            part.read()
        if not isinstance(part, Seg):
            if cond is None or cond(part):
                res.parts.append(elt(part))
            continue
        lp = Loop(key, part)
        roots = dict(loc)
        roots['res!'] = res
        lp.enter(roots, ())
        if lp.iterating:
            vals, lp.tag, lp.idx = lp.seg.open_iter(lp)
            lp.vals = vals
            for v in vals:
                if cond is None or cond(v):
                    res.parts.append(elt(v))
            lp._end_of_iteration({})
            raise PathDone
    if kind == 'set':
        return VSet(res)
    if kind == 'dict':
        d = VDict()
        d.update(res)
        return d
    return res
