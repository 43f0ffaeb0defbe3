"""shared pieces of the contracts"""
import contextlib
from pyvc import frame
from pyvc.values import SymStream


@contextlib.contextmanager
def patched(mod, **kw):
    """names of a module (its dependencies) replaced by their contracts"""
    old = {k: mod.__dict__[k] for k in kw if k in mod.__dict__}
    mod.__dict__.update(kw)
    try:
        yield
    finally:
        mod.__dict__.update(old)
        for k in kw:
            if k not in old:            # (a builtin)
                del mod.__dict__[k]


class Raised:
    """outcome of a call: the exception (of the given kinds) or None"""

    def __init__(self, kinds, f, *a, **k):
        self.exc, self.value = None, None
        try:
            self.value = f(*a, **k)
        except kinds as e:
            self.exc = e


def N(s):
    return ('name', s)


def A(base, s):
    return ('attr', N(base) if isinstance(base, str) else base, s)


def config(v, **kw):
    cf = v.mod('ctypeslib.codegen.config')
    c = cf.CodegenConfig()
    for k, x in kw.items():
        setattr(c, k, x)
    return c


def generator(v, **kw):
    """a generator as its constructor leaves it"""
    cg = v.mod('ctypeslib.codegen.codegenerator')
    c = config(v, **kw)
    frame.watch(c)      # (C04: a generator only reads its configuration)
    return cg.Generator(SymStream() if v.symbolic else __import__('io').StringIO(), c)


def chatty(v, g, *items):
    """any combination of the comment, docstring and location options, and any place of the items.  print_comment is
    replaced by its contract (C19.print_comment): comment lines.  What is generated is proved not to depend on any of
    them: the postconditions read the program, in which comments have no meaning"""
    g.generate_comments = v.bool('comments')
    g.generate_locations = v.bool('locations')
    g.generate_docstrings = v.bool('docstrings')
    for i, x in enumerate(items):
        x.location = v.choice('location%d' % i, [None, True]) and placed(v)
    g.print_comment = lambda item: g.stream.write('# ' + v.str('some comment', 'line') + '\n')


def placed(sc):
    """a location"""
    return (sc.str('file', 'line'), sc.int('line', 1))
