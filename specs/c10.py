"""C10: kind, symbol and regex selection."""
import z3
from pyvc import frame
from pyvc.spec import contract, Scope
from pyvc.core import SymBool, mkbool, z_of, ctx
from pyvc.rope import SymStr, Atom


def items(v, few=False):
    td = v.mod('ctypeslib.codegen.typedesc')

    def make(sc):
        name = sc.str('name')
        k = sc.choice('kind', ['Typedef', 'Structure', 'Function', 'Macro', 'Variable', 'Enumeration', 'Union', 'EnumValue',
                               'Alias'][:1 if few else None])
        o = object.__new__(getattr(td, k))
        o.name = name
        return o
    return v.seq('items', make, distinct=('name',))


def translator(v, its, **cfg):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    cf = v.mod('ctypeslib.codegen.config')
    c = cf.CodegenConfig()
    for k, x in cfg.items():
        setattr(c, k, x)
    frame.watch(c)      # (C04: a translation only reads its configuration)
    tr = cg.CodeTranslator(c)
    tr.filtered_items = its
    return tr


class Subset:
    """an arbitrary collection of the kinds"""

    def __init__(self, v):
        self.v = v

    def __contains__(self, k):
        return bool(self.v.bool('selected.' + k.__name__))


@contract('C10.filter_types', 'codegenerator.CodeTranslator.filter_types', ['C10', 'C13'])
def filter_types(v):
    its = items(v)
    sel = Subset(v)
    tr = translator(v, its, types=sel)
    tr.filter_types()
    v.expect_list(tr.filtered_items, [v.each(its, lambda e: [e] if type(e) in sel else [])],
                  'exactly the items of the selected kinds, in order')


@contract('C10.filter_symbols', 'codegenerator.CodeTranslator.filter_symbols', ['C10', 'C13'])
def filter_symbols(v):
    its = items(v)
    syms = v.seq('symbols', lambda sc: sc.str('s'))
    tr = translator(v, its, symbols=syms)
    tr.filter_symbols()
    wanted = lambda e: True if v.empty(syms) else v.member(e.name, syms)
    v.expect_list(tr.filtered_items, [v.each(its, lambda e: [e] if wanted(e) else [])],
                  'exactly the items named, all of them when no symbol is given')


class RxMatch:
    def __init__(self, rx, s, kind):
        self.rx, self.s, self.kind = rx, s, kind

    def group(self, *a):
        f = z3.Function('rx.group.' + self.kind, z3.IntSort(), z3.StringSort(), z3.StringSort())
        z = f(self.rx.z(), z_of(self.s))
        return SymStr((Atom(z.sexpr(), 'text', z),))

    def __bool__(self):
        return True


class Rx:
    """a compiled regular expression: any relation between expressions and strings"""
    _vc_state = False

    def __init__(self, sc):
        self.id = sc.int('rx')
        self.pattern = sc.str('pattern', 'text')

    def z(self):
        return z_of(self.id)

    def _p(self, kind, s):
        f = lambda k: z3.Function('rx.' + k, z3.IntSort(), z3.StringSort(), z3.BoolSort())(self.z(), z_of(s))
        need = {'search': ['search'], 'match': ['search', 'match'], 'fullmatch': ['search', 'match', 'fullmatch']}
        return z3.And(*[f(k) for k in need[kind]])

    def has(self, s):
        return mkbool(self._p('search', s))

    def _q(self, kind, s):
        return RxMatch(self, s, kind) if mkbool(self._p(kind, s)) else None

    def search(self, s):
        return self._q('search', s)

    def match(self, s):
        return self._q('match', s)

    def fullmatch(self, s):
        return self._q('fullmatch', s)


@contract('C10.filter_expressions', 'codegenerator.CodeTranslator.filter_expressions', ['C10', 'C13'], modes=('proof', 'bounded'))
def filter_expressions(v):
    its = items(v, few=True)
    exps = v.seq('expressions', Rx)
    tr = translator(v, its, expressions=exps)
    tr.filter_expressions()
    out = tr.filtered_items
    if v.empty(exps):
        v.expect_list(out, [v.each(its, lambda e: [e])], 'no expression: everything')
        return
    # completeness: an item in which some expression is found is kept

    def complete():
        e = v.elem(its)
        x = v.elem(exps)
        v.assume(x.has(e.name))
        v.prove(v.has(out, e, near=(x,)), 'an item in which an expression is found is requested')
    v.both(complete)

    def sound(e):
        v.prove(v.exists(exps, lambda x: x.has(e.name)), 'only items in which some expression is found')
    v.forall(out, sound)
    v.forall(out, lambda e: v.prove(v.is_item(e, its), 'only input items'))


class Gen:
    """a generator: what it is asked to generate"""

    def __init__(self):
        self.asked = []

    def generate(self, parser, items):
        self.asked.append((parser, items))
        return 1


def asked(v, tr, its):
    """the items a translation asks its generator for"""
    gen = Gen()
    tr.items = its
    tr.parser = object()
    tr.make_code_generator = lambda out: setattr(tr, 'generator', gen) or gen
    tr.generate_code('out')
    v.prove(len(gen.asked) == 1 and gen.asked[0][0] is tr.parser, 'generated once, for its parser')
    return gen.asked[0][1]


@contract('C10.generate_code', 'codegenerator.CodeTranslator.generate_code, filter_types, filter_symbols, filter_expressions', ['C10', 'C13'])
def generate_code(v):
    its = items(v)
    sel = Subset(v)
    syms = v.seq('symbols', lambda sc: sc.str('s'))
    tr = translator(v, v.list(), types=sel, symbols=syms)
    out = asked(v, tr, its)
    wanted = lambda e: type(e) in sel and (True if v.empty(syms) else v.member(e.name, syms))
    v.expect_list(out, [v.each(its, lambda e: [e] if wanted(e) else [])],
                  'exactly the items of the selected kinds that are named, in order')
    v.expect_list(tr.items, [v.each(its, lambda e: [e])], 'the items of the translation stay')


@contract('C10.generate_code_expressions', 'codegenerator.CodeTranslator.generate_code, filter_types, filter_symbols, filter_expressions', ['C10', 'C13'])
def generate_code_expressions(v):
    its = items(v, few=True)
    exps = v.seq('expressions', Rx, nonempty=True)
    syms = v.seq('symbols', lambda sc: sc.str('s'), bound=1) if v.choice('symbols', [False, True]) else v.list()
    sel = Subset(v)
    tr = translator(v, v.list(), types=sel, expressions=exps, symbols=syms)
    out = asked(v, tr, its)
    named = lambda e: True if v.empty(syms) else v.member(e.name, syms)

    def complete():
        e = v.elem(its)
        x = v.elem(exps)
        v.assume(x.has(e.name))
        if type(e) in sel and named(e):
            v.prove(v.has(out, e, near=(x,)), 'a named item of a selected kind in which an expression is found is requested')
    v.both(complete)

    def sound(e):
        v.prove(v.exists(exps, lambda x: x.has(e.name)), 'only items in which some expression is found')
        v.prove(type(e) in sel, 'only items of a selected kind')
        v.prove(named(e), 'only named items')
    v.forall(out, sound)
    v.forall(out, lambda e: v.prove(v.is_item(e, its), 'only input items'))
