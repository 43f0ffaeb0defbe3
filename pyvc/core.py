"""Path exploration, obligations and symbolic scalars.

A contract is an ordinary Python function that builds symbolic inputs, calls the real
(mechanically instrumented) code and states postconditions.  It is executed once per path:
every branch on a symbolic condition asks the solver which sides are feasible, and the
exploration re-executes the contract until all decision sequences are exhausted.  Each
`prove` call generates one proof obligation  path-condition => condition.
"""
import random
import time
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The engine cannot represent this operation: nothing is decided."""


class PathDone(BaseException):
    """End of a path (iteration of a loop finished, infeasible assumption...)"""


class Restart(BaseException):
    """Loop information was refined: explore the contract again"""


class Failed(BaseException):
    """an obligation failed on this path"""


class Obligation:
    def __init__(self, name, ok, detail='', model=None, havoc=False, status=None):
        self.name, self.ok, self.detail, self.model, self.havoc = name, ok, detail, model, havoc
        self.covered = False
        self.status = status or ('discharged' if ok else 'failed')


class Ctx:
    """exploration state of one contract in one mode"""
    cur = None

    def __init__(self, mode='proof', bound=2, values=None, timeout_ms=8000, deadline=None, seed=0):
        self.mode = mode            # proof | bounded | concrete
        self.bound = bound
        self.values = values or {}  # concrete mode: name -> value
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.solver_time = 0.0
        self.queries = 0
        self.obligations = {}       # (name) -> Obligation (worst)
        self.obl_count = 0
        self.paths = 0
        self.loopinfo = {}
        self.restarts = 0
        self.serial = 0
        self.settled = {}
        self.scopefacts = {}        # seq name -> {(local, k): (tag, fact)}
        self.defs = {}              # existence predicates: name -> (seq name, tag, formula, parameters)
        self.elem_of = {}           # id(element) -> (sequence name, tag), over all paths
        self.keep = []
        self.records = {}           # loop key -> cases
        self.reset_path([])

    # ---- path management
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []             # decisions taken (choice index, number of alternatives)
        self.conds = []             # path condition
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('random_seed', 1)
        self.names = {}
        self.loopcount = {}
        self.active = []            # active loop iterations
        self.havoced = False
        self.iterating = False
        self.itered = []            # lists a loop is iterating over
        self.rounds = None          # objects that hold the state of an arbitrary round of a while loop
        self.inexact = False        # the path condition does not say everything about the path
        self.heap = []
        self.attrlog = []
        self.foralls = []           # (seq, tag, cond over that element) known for all elements
        self.elems = {}             # seq name -> generic elements made
        self.seqs = {}
        self.known = set()
        self.locals = {}            # seq name -> {local: (local, sort)}
        self.allow_set_iter = False
        self.monitors = []
        self.inputs = {}            # name -> z3 const (for counterexamples)
        self.observed = []
        self.ilists = []            # every list made on this path
        self.counts = {}            # number of contributions of a segment
        self.float_shape = {}       # which of the renderings a float has

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    def unique(self, base):
        """a name used on this path only"""
        self.serial += 1
        return '%s~%d' % (base, self.serial)

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def assume(self, c):
        c = tobool(c)
        if isinstance(c, bool):
            if not c:
                raise PathDone
            return
        self.conds.append(c)
        self.solver.add(c)
        if len(self.trace) >= len(self.prefix):
            if self.check() == z3.unsat:
                raise PathDone

    def assume_quiet(self, c):
        """a fact (definition, element invariant): not part of the guard of a path"""
        c = tobool(c)
        if isinstance(c, bool):
            if not c:
                raise PathDone
            return
        self.solver.add(c)

    def choose(self, n, conds=None, label=''):
        """n-way decision; alternatives explored in order 0..n-1.  conds: z3 condition per
        alternative (None: unconditional)."""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
        while True:
            if k >= n:
                # nothing feasible from here on
                self.trace.append((n - 1, n))
                raise PathDone
            if conds is not None and conds[k] is not None:
                c = conds[k]
                if i < len(self.prefix) and k == self.prefix[i] and i < len(self.prefix) - 1:
                    ok = True
                else:
                    r = self.check(c)
                    ok = (r != z3.unsat)
                if ok:
                    self.conds.append(c)
                    self.solver.add(c)
                    break
                k += 1
                continue
            break
        self.trace.append((k, n))
        return k

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.Not(c)
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]      # both feasible, or 2, 3: implied by the path (not recorded as a condition)
            if k == 1 and i == len(self.prefix) - 1 and self.check(nc) == z3.unsat:
                self.trace.append((k, 2))
                raise PathDone
        elif self.check(nc) == z3.unsat:
            k = 2
        elif self.check(c) == z3.unsat:
            k = 3
        else:
            k = 0
        self.trace.append((k, 2 if k < 2 else k + 1))
        if k < 2:
            self.conds.append((c, nc)[k])
            self.solver.add((c, nc)[k])
        return k in (0, 2)

    def explore(self, fn):
        """run fn over all the paths"""
        prev = Ctx.cur
        Ctx.cur = self
        try:
            stack = []
            prefix = []
            while True:
                self.reset_path(prefix)
                try:
                    self.paths += 1
                    if self.paths > 60000:
                        raise Unsupported('too many paths')
                    fn(self)
                except PathDone:
                    pass
                except Restart:
                    self.restarts += 1
                    if self.restarts > 400:
                        raise Unsupported('loop inference does not converge')
                    prefix = []
                    self.records = {}
                    self.obligations = {}
                    self.obl_count = 0
                    continue
                except Failed:
                    pass
                # next prefix: last decision with an untried alternative
                tr = self.trace
                while tr and tr[-1][0] + 1 >= tr[-1][1]:
                    tr.pop()
                if not tr:
                    return
                prefix = [k for k, _ in tr[:-1]] + [tr[-1][0] + 1]
        finally:
            Ctx.cur = prev

    # ---- obligations
    def prove(self, c, name, stop=True, detail=None):
        c = tobool(c)
        self.obl_count += 1
        if isinstance(c, bool):
            ok = c
            st = None
            model = None
            if not ok:
                r = self.check()
                if r == z3.unsat:
                    raise PathDone      # no input takes this path
                elif r == z3.sat:
                    model = self.solver.model()
                else:
                    model = self.guess()
                    st = None if model is not None else 'unknown'
        else:
            r = self.check(z3.Not(c))
            ok = (r == z3.unsat)
            st = None
            model = self.solver.model() if r == z3.sat else None
            if r == z3.unknown:
                model = self.guess(z3.Not(c))
                st = None if model is not None else 'unknown'
        o = self.obligations.get(name)
        if ok:
            if o is None:
                o = self.obligations[name] = Obligation(name, True)
            if not o.covered and self.mode != 'concrete':
                # vacuity: some path reaches the obligation
                o.covered = self.check() == z3.sat
            return True
        if o is None or o.ok:
            d = detail() if callable(detail) else detail
            self.obligations[name] = Obligation(name, False, (d or str(c))[:4000], self._concretize(model),
                                                self.havoced, st)
        if stop:
            raise Failed
        return False

    def guess(self, *extra):
        """the solver does not know: try texts built from the literals of the formulas"""
        forms = list(self.solver.assertions()) + list(extra)
        names, lits, seen, todo = {}, {'', 'a', 'b'}, set(), list(forms)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_string_value(e):
                lits.add(e.as_string())
            elif z3.is_const(e) and z3.is_string(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names[e.decl().name()] = e
            todo.extend(e.children())
        lits = sorted(x for x in lits if len(x) < 40)[:24]
        if not names:
            return None
        r = random.Random(1)
        t = time.time()
        stems = [x + y for x in lits[:6] + [''] for y in ('x', 'y')]
        for _ in range(150):
            if time.time() - t > 8:
                break
            pool = [''.join(r.choice(lits + ['x', 'y', 'my_']) for _ in range(r.choice([1, 2, 2, 3]))) for _ in range(2)] + [r.choice(stems)]
            if self.check(*extra, *[v == z3.StringVal(r.choice(pool)) for v in names.values() if r.random() < .6]) == z3.sat:
                return self.solver.model()
        return None

    def valid(self, c):
        c = tobool(c)
        if isinstance(c, bool):
            return c or self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def _concretize(self, model):
        if model is None:
            return None
        out = {}
        for n, v in self.inputs.items():
            try:
                e = model.eval(v, model_completion=True)
                if z3.is_int_value(e):
                    out[n] = e.as_long()
                elif z3.is_true(e) or z3.is_false(e):
                    out[n] = z3.is_true(e)
                elif z3.is_string_value(e):
                    out[n] = e.as_string()
            except Exception:      # no value for this one
                pass
        return out


def ctx():
    return Ctx.cur


def tobool(c):
    if isinstance(c, SymBool):
        return c.z
    if isinstance(c, z3.BoolRef):
        return c
    return bool(c)


# ------------------------------------------------------------------ scalars

class Sym:
    """base of symbolic scalars"""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return ctx().branch(self.z)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        if isinstance(o, bool):
            return SymBool(self.z if o else z3.Not(self.z))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.z))

    def __and__(self, o):
        return SymBool(z3.And(self.z, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    __hash__ = None

    def __repr__(self):
        return 'SymBool(%s)' % self.z

    # bool is an int
    def _int(self):
        return SymInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __int__(self):
        raise Unsupported('int() of a symbolic bool')


def toint(v):
    if isinstance(v, SymInt):
        return v.z
    if isinstance(v, SymBool):
        return v._int().z
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    return None


def _cmp(f):
    def op(self, o):
        z = toint(o)
        if z is None:
            return NotImplemented
        return mkbool(f(self.z, z))
    return op


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


class SymInt(Sym):
    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        z = toint(o)
        if z is None:
            if o is None or isinstance(o, str):
                return False
            return NotImplemented
        return mkbool(self.z == z)

    def __ne__(self, o):
        z = toint(o)
        if z is None:
            if o is None or isinstance(o, str):
                return True
            return NotImplemented
        return mkbool(self.z != z)

    __hash__ = None

    def _bin(f):
        def op(self, o):
            z = toint(o)
            if z is None:
                return NotImplemented
            return mkint(f(self.z, z))
        return op

    def _rbin(f):
        def op(self, o):
            z = toint(o)
            if z is None:
                return NotImplemented
            return mkint(f(z, self.z))
        return op

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)

    def __mul__(self, o):
        z = toint(o)
        if z is None:
            return NotImplemented
        return mkint(self.z * z)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def _divmod(self, o):
        if not isinstance(o, int) or isinstance(o, bool) or o <= 0:
            raise Unsupported('division by %r' % (o,))
        return o

    def __floordiv__(self, o):
        o = self._divmod(o)
        return mkint(self.z / z3.IntVal(o))

    def __mod__(self, o):
        o = self._divmod(o)
        return mkint(self.z % z3.IntVal(o))

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported('>>')

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported('<<')

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported('&')

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def __repr__(self):
        return 'SymInt(%s)' % self.z

    def __index__(self):
        raise Unsupported('symbolic integer used as an index')

    def __int__(self):
        raise Unsupported('int() of a symbolic integer outside instrumented code')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic integer outside instrumented code')

    def __str__(self):
        raise Unsupported('str() of a symbolic integer outside instrumented code')


class SymFloat(Sym):
    """an unknown finite floating-point value (a real number; only negation and equality are known)"""
    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_

    def __neg__(self):
        return SymFloat(z3.simplify(-self.z))

    def __pos__(self):
        return self

    def __eq__(self, o):
        z = toreal(o)
        return False if z is None else mkbool(self.z == z)

    def __ne__(self, o):
        z = toreal(o)
        return True if z is None else mkbool(self.z != z)

    __hash__ = None

    def __bool__(self):
        return bool(mkbool(self.z != 0))

    def __repr__(self):
        return 'SymFloat(%s)' % self.z


def toreal(v):
    if isinstance(v, SymFloat):
        return v.z
    if isinstance(v, (float, int)) and not isinstance(v, bool):
        from fractions import Fraction
        try:
            f = Fraction(v)
        except (ValueError, OverflowError):
            raise Unsupported('a float that is no number')
        return z3.Q(f.numerator, f.denominator)
    if isinstance(v, SymInt):
        return z3.ToReal(v.z)
    return None


def is_sym(x):
    return isinstance(x, Sym)


def z_of(v):
    """z3 term of a scalar, or None"""
    from .rope import SymStr
    if isinstance(v, (SymInt, SymBool, SymFloat)):
        return v.z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SymStr):
        return v.to_z3()
    if isinstance(v, str):
        return z3.StringVal(v)
    return None


_CONSTS = {}


def const_terms(z):
    """the uninterpreted constants of a term (list of terms)"""
    k = z.get_id()
    r = _CONSTS.get(k)
    if r is not None and r[0].eq(z):
        return r[1]
    out = []
    seen = set()
    todo = [z]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        n = e.num_args() if z3.is_app(e) else 0
        if n == 0:
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append((e, e.decl().name()))
            elif not z3.is_app(e):
                todo.extend(e.children())
        else:
            todo.extend(e.children())
    if len(_CONSTS) > 200000:
        _CONSTS.clear()
    _CONSTS[k] = (z, out)
    return out


def free_consts(z, acc=None):
    r = {n for _, n in const_terms(z)}
    if acc is None:
        return r
    acc |= r
    return acc
