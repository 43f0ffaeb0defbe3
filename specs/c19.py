"""C19: comments, docstrings and locations."""
from pyvc.spec import contract
from clang.cindex import CursorKind
from specs.common import generator, patched, chatty, placed, N, A
from specs.types import tdesc, known_types
from specs.cursors import Cur, parser, handler, loc


class Wrap:
    """contract of textwrap: lines without line breaks"""

    def __init__(self, v):
        self.v = v

    def wrap(self, text, width):
        return self.v.seq('lines', lambda sc: sc.str('line', 'line'))


@contract('C19.print_comment', 'codegenerator.Generator.print_comment', ['C19'])
def print_comment(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    cg = v.mod('ctypeslib.codegen.codegenerator')
    g = generator(v)
    x = td.Typedef(v.str('name'), None)
    x.comment = v.choice('comment', [None, True]) and v.str('text', 'text')
    if not v.symbolic:
        g.print_comment(x)
    else:
        with patched(cg, textwrap=Wrap(v)):
            g.print_comment(x)
    v.expect_program(v.program(g), [], 'comments only')
    v.expect_program(v.program(g, 'imports'), [], 'comments only')
    v.expect_list(g.names, [], 'nothing is exported')


@contract('C19.generate', 'codegenerator.Generator._generate', ['C19', 'C11'])
def generate(v):
    """the handler of the item is called exactly when it would be without the options"""
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    x = v.choice('kind', [td.Typedef, td.Variable, td.Alias])(v.str('name'), None)
    chatty(v, g, x)
    calls = []
    done = v.choice('done', [False, True])
    if done:
        g.done[x] = True
    h = lambda item, *a: calls.append((item, a, item in g.done))
    g.Typedef = g.Variable = g.Alias = h
    more = v.choice('more', [(), (True,)])
    g._generate(x, *more)
    v.expect_program(v.program(g), [], 'comments only')
    v.prove(calls == ([] if done else [(x, more, True)]), 'generated once')
    v.prove(x in g.done, 'marked as done before it is generated')
    v.expect_list(g.names, [], 'nothing is exported')


@contract('C19.set_comment', 'handler.ClangHandler.set_comment, set_location', ['C19', 'C16'])
def set_comment(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    x = td.Typedef(v.str('name'), None)
    before = dict(x.__dict__)
    c = Cur(v, CursorKind.TYPEDEF_DECL, location=v.choice('located', [None, True]) and loc(v))
    c.brief_comment = v.choice('comment', [None, True]) and v.str('text', 'text')
    handler(p).set_location(x, c)
    handler(p).set_comment(x, c)
    after = dict(x.__dict__)
    v.prove(after.pop('comment', None) is c.brief_comment, 'the comment of the declaration')
    l = after.pop('location', None)
    v.prove((l is None) == (c.location is None), 'located when the declaration is')
    if l is not None:
        v.equal(l[0], c.location.file.name, 'in its file')
        v.equal(l[1], c.location.line, 'at its line')
    v.prove(after == before, 'nothing else changes')
    v.prove(not p.all, 'nothing is registered')


@contract('C19.Alias', 'codegenerator.Generator.Alias', ['C19'])
def alias(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    x = td.Alias(v.str('name'), v.str('value', 'expr'))
    chatty(v, g, x)
    g._generate(x)
    v.expect_program(v.program(g), [('=', N(x.name), N(x.alias))], 'bound to its value')


SIZED = dict((s + 'int%d_t' % n, 'c_%sint%d' % (s, n)) for s in ('', 'u') for n in (8, 16, 32, 64))


@contract('C05.Typedef', 'codegenerator.Generator.Typedef', ['C05', 'C03', 'C11', 'C12', 'C13', 'C19'])
def typedef(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    t = tdesc(td, v, 't.', ('fundamental', 'record', 'typedef', 'pointer', 'array', 'pointer to function'))
    x = td.Typedef(v.str('name'), t)
    chatty(v, g, x)
    needed = v.list()
    g._generate = lambda item, *a: needed.append(item.expr)
    done = v.choice('done', [False, True])
    if done:
        g.done[t] = True
    g.Typedef(x)
    out = v.program(g)
    v.expect_list(g.names, [x.name], 'exported')
    if type(t) is td.FundamentalType:
        for n, c in SIZED.items():
            if x.name == n:
                v.expect_program(out, [('=', N(x.name), A('ctypes', c))], 'the types of the C standard of a known size')
                return
    if x.name == t.expr:
        v.expect_program(out, [], 'a typedef of the name of its type')
    else:
        v.expect_program(out, [('=', N(x.name), N(t.expr))], 'the name of the type')
    if not done:
        v.expect_list(needed, [t.expr], 'the type is generated first')
