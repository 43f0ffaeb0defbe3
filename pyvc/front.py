"""Mechanical instrumentation of the code under verification, redone from /repo's current
source on every run.

The transformation keeps every statement of the functions; operators, displays, loops and
builtins whose native behaviour cannot carry symbolic operands are routed through hooks with
the same meaning.  It drops: statements that are only a call of a method of the module logger
`log`, docstrings and annotations.  Generators are run eagerly (their values collected in a
list)."""
import ast
import z3
import importlib.abc
import importlib.util
import os
import sys
from . import hooks, loops
from .live import Live
from .core import Unsupported
from .values import IList, VDict, VSet, SymStream, SymSeq, Seg, Hidden


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []
        self.counters = {}
        self.live = []

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), name, ast.Load()), list(args), [])

    def key(self, what):
        q = '.'.join([self.mod] + self.fn)
        k = self.counters.get((q, what), 0)
        self.counters[(q, what)] = k + 1
        return ast.Constant('%s:%s%d' % (q, what, k))

    # functions
    def _fn(self, node):
        self.fn.append(node.name)
        self.live.append(Live(node))
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str) and len(node.body) > 1:
            node.body = node.body[1:]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        if gen:
            body = [ast.Assign([ast.Name('__vcy', ast.Store())], self.call('IList', ast.List([], ast.Load())))] + \
                body + [ast.Return(ast.Name('__vcy', ast.Load()))]
            body = [GenRet().visit(x) for x in body]
        stars = [a.arg for a in (node.args.vararg, node.args.kwarg) if a is not None]
        body = [ast.Assign([ast.Name(n, ast.Store())], self.call('unpacked', ast.Name(n, ast.Load()))) for n in stars] + body
        node.body = body or [ast.Pass()]
        node.returns = None
        self.fn.pop()
        self.live.pop()
        return node
    visit_FunctionDef = _fn

    def visit_Yield(self, node):
        return ast.Call(ast.Attribute(ast.Name('__vcy', ast.Load()), 'append', ast.Load()),
                        [self.visit(node.value) if node.value else ast.Constant(None)], [])

    def visit_YieldFrom(self, node):
        return ast.Call(ast.Attribute(ast.Name('__vcy', ast.Load()), 'extend', ast.Load()), [self.visit(node.value)], [])

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        node.bases = [self.call('real', self.visit(b)) for b in node.bases]
        node.body = [y for x in node.body for y in aslist(self.visit(x))]
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        self.fn.append('<lambda>')
        node = self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                and v.func.value.id == 'log':
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    # imports
    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            if a.name in hooks.MODS:
                n = a.asname or a.name.split('.')[0]
                m = a.name if a.asname else n
                if m in hooks.MODS:
                    out.append(ast.Assign([ast.Name(n, ast.Store())], self.call('mod_shim', ast.Constant(m))))
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.module in hooks.MODS and node.level == 0:
            for a in node.names:
                n = a.asname or a.name
                out.append(ast.Assign([ast.Name(n, ast.Store())],
                                      ast.Attribute(self.call('mod_shim', ast.Constant(node.module)), a.name, ast.Load())))
        return out

    # expressions
    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('mod', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            raise Unsupported('%=')
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('')
                if v.format_spec is not None:
                    if len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant):
                        spec = v.format_spec.values[0]
                    elif v.format_spec.values:
                        return node
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(chr(v.conversion) if v.conversion != -1 else None),
                                        spec], ast.Load()))
        return self.call('fstr', ast.Tuple(parts, ast.Load()))

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('locals', 'vars', 'super', 'globals'):
            return node
        node = self.generic_visit(node)
        f = node.func
        if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            return self.call('starcall', f,
                             ast.Tuple([ast.Tuple([ast.Constant(isinstance(a, ast.Starred)),
                                                   a.value if isinstance(a, ast.Starred) else a], ast.Load()) for a in node.args], ast.Load()),
                             ast.Tuple([ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in node.keywords], ast.Load()))
        if isinstance(f, ast.Attribute) and f.attr in hooks.STRM and isinstance(f.ctx, ast.Load) and \
                not (isinstance(f.value, ast.Name) and f.value.id in ('re', 'os', 'textwrap', 'subprocess', '__vc__')) and \
                not isinstance(f.value, ast.Call) or \
                isinstance(f, ast.Attribute) and f.attr in hooks.STRM and isinstance(f.value, ast.Call):
            return ast.Call(ast.Attribute(ast.Name('__vc__', ast.Load()), 'meth', ast.Load()),
                            [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return self.call('contains', a, b)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), self.call('contains', a, b))
            if isinstance(op, ast.Is):
                return self.call('is_', a, b)
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(ast.Not(), self.call('is_', a, b))
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self.call('getitem', node.value, node.slice)
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call('mklist', node)
        return node

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self.call('VSet', ast.Tuple(node.elts, ast.Load()))

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return self.call('mkdict', ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)],
                                             ast.Load()))

    def _comp(self, node, kind):
        g = node.generators
        if len(g) != 1 or g[0].is_async:
            return self.generic_visit(node)
        g = g[0]
        tgt = g.target
        key = self.key('comp')
        it = self.visit(g.iter)
        if kind == 'dict':
            elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        else:
            elt = self.visit(node.elt)
        cond = None
        if g.ifs:
            ifs = [self.visit(x) for x in g.ifs]
            cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)

        def lam(body):
            if isinstance(tgt, ast.Name):
                return ast.Lambda(args([tgt.id]), body)
            if isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in tgt.elts):
                inner = ast.Lambda(args([x.id for x in tgt.elts]), body)
                return ast.Lambda(args(['__vct']), ast.Call(inner, [ast.Starred(ast.Name('__vct', ast.Load()), ast.Load())], []))
            return None
        l1 = lam(elt)
        if l1 is None:
            return self.generic_visit(node)
        l2 = lam(cond) if cond is not None else ast.Constant(None)
        loc = ast.Call(ast.Name('locals', ast.Load()), [], [])
        return self.call('comp', ast.Constant(kind), key, it, l1, l2, loc)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    # loops
    def visit_While(self, node):
        """(the specification may ask for the state of an arbitrary round: integers the rounds compute are then unknown)"""
        names = sorted({x.id for st in node.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))})
        node = self.generic_visit(node)
        self.n += 1
        W = '__vcW%d' % self.n
        pre = [ast.Assign([ast.Name(W, ast.Store())], self.call('rounds', ast.Call(ast.Name('locals', ast.Load()), [], []),
                                                                ast.Tuple([ast.Constant(n) for n in names], ast.Load())))]
        for n in names:
            pre.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()], [ast.Name(W, ast.Load())]),
                              [ast.Assign([ast.Name(n, ast.Store())], ast.Subscript(ast.Name(W, ast.Load()), ast.Constant(n), ast.Load()))], []))
        node.test = ast.BoolOp(ast.And(), [self.call('again', ast.Name(W, ast.Load())), node.test])
        return pre + [node]

    def visit_For(self, node):
        key = self.key('for')
        it = self.visit(node.iter)
        names = []
        for st in [node.target] + node.body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names:
                    names.append(x.id)
        if self.live:
            names = self.live[-1].names(node, names)
        body = [y for x in node.body for y in aslist(self.visit(x))]
        orelse = [y for x in node.orelse for y in aslist(self.visit(x))]
        self.n += 1
        L, P = '__vcL%d' % self.n, '__vcP%d' % self.n
        hav = [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'enter', ast.Load()),
                                 [ast.Call(ast.Name('locals', ast.Load()), [], []),
                                  ast.Tuple([ast.Constant(n) for n in names], ast.Load())], []))]
        for n in names:
            hav.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()],
                                          [ast.Attribute(ast.Name(L, ast.Load()), 'h', ast.Load())]),
                              [ast.Assign([ast.Name(n, ast.Store())],
                                          ast.Subscript(ast.Attribute(ast.Name(L, ast.Load()), 'h', ast.Load()),
                                                        ast.Constant(n), ast.Load()))], []))
        inner = ast.For(node.target, ast.Name(L, ast.Load()), body, [ast.Continue()])
        outer = ast.For(ast.Name(P, ast.Store()), self.call('parts', it),
                        [ast.Assign([ast.Name(L, ast.Store())], self.call('loop', key, ast.Name(P, ast.Load()))),
                         ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'sym', ast.Load()), hav, []),
                         inner, ast.Break()], orelse)
        return outer


def args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def aslist(r):
    return r if isinstance(r, list) else [] if r is None else [r]


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


class GenRet(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        return ast.Return(ast.Name('__vcy', ast.Load()))


class VC:
    """names available to instrumented code as __vc__"""

    @staticmethod
    def again(h):
        """(the test of a while loop)"""
        if h and h[''][0]:
            h[''][1] += 1
            if h[''][1] > 1:
                from .core import PathDone
                raise PathDone
        return True

    @staticmethod
    def rounds(loc, names):
        from .core import Ctx, SymInt, SymBool, Unsupported
        from .values import IList, VDict, VSet
        c = Ctx.cur
        if c is None or c.rounds is None:
            return {}
        (state, cut), c.rounds = c.rounds, None
        h = {'': [cut, 0]}
        for n, v in loc.items():
            if n.startswith('__vc'):
                continue
            if isinstance(v, (bool, SymBool)):
                if n in names:
                    h[n] = SymBool(z3.Bool(c.unique('hv!round!' + n)))
            elif isinstance(v, (int, SymInt)):
                if n in names:
                    h[n] = SymInt(z3.Int(c.unique('hv!round!' + n)))
            elif any(v is x for x in state):
                continue
            elif n in names or isinstance(v, (IList, VDict, VSet, list, dict, set)):
                raise Unsupported('the rounds of a while loop pass on %s' % n)
        return h
    mod = staticmethod(hooks.mod)
    fstr = staticmethod(hooks.fstr)
    meth = staticmethod(hooks.meth)
    contains = staticmethod(hooks.contains)
    is_ = staticmethod(hooks.is_)
    getitem = staticmethod(hooks.getitem)
    comp = staticmethod(loops.comp)
    IList = IList
    VSet = VSet
    real = staticmethod(hooks.real)
    starcall = staticmethod(hooks.starcall)
    unpacked = staticmethod(hooks.unpacked)

    @staticmethod
    def mklist(x):
        out = []
        for p in x:
            out.append(p)
        return IList(out)

    @staticmethod
    def mkdict(pairs):
        d = VDict()
        for k, v in pairs:
            d[k] = v
        return d

    @staticmethod
    def mod_shim(n):
        return hooks.MODS[n]

    @staticmethod
    def parts(it):
        """parts of the iterable: runs of concrete items, and symbolic segments"""
        from .core import Ctx
        c = Ctx.cur
        if c is None or type(it) is not IList:
            yield from VC.parts1(it)
            return
        c.itered.append(it)         # (not to be changed meanwhile)
        try:
            yield from VC.parts1(it)
        finally:
            c.itered[:] = [x for x in c.itered if x is not it]

    @staticmethod
    def parts1(it):
        ps = hooks.iter_parts(it)
        if ps is it or not any(isinstance(p, (Seg, Hidden)) for p in ps):
            return [ps if ps is it else list(ps)]
        out = []
        for p in ps:
            if isinstance(p, (Seg, Hidden)):
                out.append(p)
            elif out and isinstance(out[-1], list):
                out[-1].append(p)
            else:
                out.append([p])
        return out

    @staticmethod
    def loop(key, part):
        if isinstance(part, Hidden):
            part.read()
        if isinstance(part, Seg):
            return loops.Loop(key, part)
        return loops.Plain(part)


def instrument(src, modname):
    tree = ast.parse(src)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


NATIVE = ('ctypeslib',)      # finds libclang and imports the API: nothing under contract


class Loader(importlib.abc.Loader):
    def __init__(self, path, modname):
        self.path, self.modname = path, modname

    def create_module(self, spec):
        return None

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        if self.modname in NATIVE:
            exec(compile(src, self.path, 'exec'), module.__dict__)
            return
        exec_src(src, self.path, self.modname, module.__dict__)


def exec_src(src, path, modname, ns):
    tree = instrument(src, modname)
    ns['__builtins__'] = hooks.BUILTINS
    ns['__vc__'] = VC
    # module level code (class tables, constants) runs with the real builtins for types
    exec(compile(tree, path, 'exec'), ns)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, pkg):
        self.root, self.pkg = root, pkg

    def find_spec(self, fullname, path, target=None):
        if fullname != self.pkg and not fullname.startswith(self.pkg + '.'):
            return None
        rel = fullname.split('.')
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname),
                                                          submodule_search_locations=[base])
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname))
        return None


def install(root='/repo', pkg='ctypeslib'):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root, pkg))
    for m in ('ctypeslib', 'ctypeslib.codegen.codegenerator', 'ctypeslib.codegen.clangparser', 'ctypeslib.clang2py'):
        __import__(m)
