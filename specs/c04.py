"""C04: what a translation is made of is its own.  That nothing shared is changed is the frame of every contract
(pyvc/frame.py); here: the constructors give out nothing that is shared, and what they give out does not depend on the
objects made before."""
from pyvc import frame
from pyvc.spec import contract
from pyvc.values import IList, VDict, VSet
from specs.common import generator, patched
from specs.cursors import Cur, parser
from clang.cindex import CursorKind
from specs.c03 import Clang, real_parser


def shape(x):
    """the content of an object, without identities"""
    def strip(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'id':
                return t
            return tuple(strip(y) for i, y in enumerate(t) if not (i == 1 and t and t[0] in NAMES))
        return t
    return strip(frame.look(x, set()))


NAMES = ('list', 'dict', 'set', 'deque', 'OrderedDict', 'IList', 'VDict', 'VSet', 'SymStream', 'object', 'function', 'class', 'cache')


def apart(v, a, b, name, but=()):
    """no mutable object is a part of both"""
    x, y = frame.reach(a), frame.reach(b)
    common = [o for i, o in x.items() if i in y and not any(o is z for z in but)]
    v.prove(not common, name, detail='shared: %r' % (common[:3],))


def own(v, x, shared, name):
    """no mutable object of x is held by a module or a class"""
    held = {}
    for m in shared:
        for k, y in list(vars(m).items()):
            if k.startswith('__'):
                continue
            held.update(frame.reach(y))
            if isinstance(y, type) and (y.__module__ or '').startswith('ctypeslib'):
                for z in list(vars(y).values()):
                    held.update(frame.reach(z))
    mine = frame.reach(x)
    common = [o for i, o in mine.items() if i in held]
    v.prove(not common, name, detail='held by a module or class: %r' % (common[:3],))


def use(v, x):
    """everything x holds is filled or counted up"""
    for k, y in list(vars(x).items()):
        if isinstance(y, bool):
            setattr(x, k, not y)
        elif isinstance(y, int):
            setattr(x, k, y + 1)
        elif isinstance(y, (list, IList)):
            y.append(v.str('item of ' + k, 'text'))
        elif isinstance(y, (set, VSet)):
            y.add(v.str('item of ' + k, 'text'))
        elif isinstance(y, (dict, VDict)):
            y[v.str('key of ' + k, 'text')] = 1


def modules(v):
    frame.load()
    return [v.mod('ctypeslib.' + n) for n in frame.MODULES]


@contract('C04.configuration', 'config.CodegenConfig.__init__', ['C04'], modes=('proof', 'bounded', 'concrete'))
def configuration(v):
    cf, td = v.mod('ctypeslib.codegen.config'), v.mod('ctypeslib.codegen.typedesc')
    ms = modules(v)
    c = cf.CodegenConfig()
    fresh = shape(c)
    own(v, c, ms, 'what a configuration holds is no class or module state')
    for k in cf.CodegenConfig.__annotations__:
        x = getattr(c, k)
        v.prove(k in vars(c) or not frame.reach(x), 'a container in a configuration is its own (%s)' % k)
    # used as a client does
    use(v, c)
    d = cf.CodegenConfig()
    apart(v, c, d, 'two configurations have nothing in common')
    v.prove(shape(d) == fresh, 'a configuration does not depend on those before')
    before = shape(c)
    e = cf.CodegenConfig()
    v.prove(shape(c) == before, 'nor changes them')
    apart(v, c, e, 'three neither')


@contract('C04.parser', 'clangparser.Clang_Parser.__init__', ['C04'], modes=('proof', 'bounded', 'concrete'))
def parsers(v):
    """(the conversion tables: C03.two_parsers)"""
    td = v.mod('ctypeslib.codegen.typedesc')
    ms = modules(v)
    clang = Clang(v)
    f, h = ['-target', 'a'], ['-target', 'a']
    p = real_parser(v, clang, f)
    v.prove(f == ['-target', 'a'], 'the flags are the caller\'s and stay')
    fresh = shape({k: x for k, x in vars(p).items() if not k.endswith('_handler')})
    own(v, p, ms, 'what a parser holds is no class or module state')
    # used
    name = v.str('name')
    p.register(name, td.Typedef(name, None))
    use(v, p)
    p.activate_macros_parsing()
    p.activate_comment_parsing()
    q = real_parser(v, clang, h)
    apart(v, p, q, 'two parsers have nothing in common')
    v.prove(shape({k: x for k, x in vars(q).items() if not k.endswith('_handler')}) == fresh, 'a parser does not depend on those before')
    for k in vars(p):
        if k.endswith('_handler'):
            v.prove(getattr(p, k).parser is p, 'the handlers are its own')
    v.prove(not q.is_registered(name), 'what is declared in one is not in the other')


@contract('C04.generator', 'codegenerator.Generator.__init__, codegenerator.CodeTranslator.__init__', ['C04'], modes=('proof', 'bounded', 'concrete'))
def generators(v):
    cg, cf, td = v.mod('ctypeslib.codegen.codegenerator'), v.mod('ctypeslib.codegen.config'), v.mod('ctypeslib.codegen.typedesc')
    ms = modules(v)
    g = generator(v)
    fresh = shape({k: x for k, x in vars(g).items() if k not in ('output', 'stream', 'imports', 'cfg')})
    own(v, g, ms, 'what a generator holds is no class or module state')
    # used
    use(v, g)
    h = generator(v)
    apart(v, g, h, 'two generators have nothing in common')
    v.prove(shape({k: x for k, x in vars(h).items() if k not in ('output', 'stream', 'imports', 'cfg')}) == fresh, 'a generator does not depend on those before')
    a, b = cg.CodeTranslator(cf.CodegenConfig()), cg.CodeTranslator(cf.CodegenConfig())
    own(v, a, ms, 'what a translation holds is no class or module state')
    apart(v, a, b, 'two translations have nothing in common')
    c = cf.CodegenConfig()
    a, b = cg.CodeTranslator(c), cg.CodeTranslator(c)
    apart(v, a, b, 'two translations with one configuration have only that in common', but=list(frame.reach(c).values()))


@contract('C04.parse', 'clangparser.Clang_Parser.parse, parse_string', ['C04', 'C03', 'C18'], modes=('proof', 'bounded', 'concrete'))
def parse(v):
    """the flags of the configuration reach clang, and stay as they are for the next translation"""
    cp, ut = v.mod('ctypeslib.codegen.clangparser'), v.mod('ctypeslib.codegen.util')
    p = parser(v, denote=False)
    more = v.seq('flags', lambda sc: sc.str('flag', 'text'))
    flags = p.flags = v.list('-target') + more
    p.start_element = lambda node: None
    calls = []

    class Unit:
        diagnostics = ()
        cursor = Cur(v, CursorKind.TRANSLATION_UNIT, 'tu')

    class TU:
        @staticmethod
        def from_source(filename, args=None, unsaved_files=None, options=0, index=None):
            calls.append(v.list() + (args or v.list()))
            return Unit()

    class Idx:
        @staticmethod
        def create(*a, **k):
            return Idx()

        def parse(self, path, args=None, unsaved_files=None, options=0):
            return TU.from_source(path, args, unsaved_files, options)
    name = v.str('folder', 'ident') + '/' + v.str('file', 'ident')
    with patched(cp, Index=Idx), patched(ut, TranslationUnit=TU):
        if v.choice('input', ['file', 'text']) == 'file':
            p.parse(name)
        else:
            p.parse_string('int i;')
    v.prove(len(calls) == 1, 'parsed once')
    v.expect_list(calls[0], ['-target', v.each(more, lambda f: [f])], 'clang gets the flags, in order')
    v.expect_list(flags, ['-target', v.each(more, lambda f: [f])], 'which are left as they were')


@contract('C04.get_tu', 'util.get_tu', ['C04', 'C03', 'C18'], modes=('proof', 'bounded', 'concrete'))
def get_tu(v):
    """two units of one text, with other flags"""
    ut = v.mod('ctypeslib.codegen.util')
    made = []

    class Unit:
        pass

    class TU:
        @staticmethod
        def from_source(filename, args=None, unsaved_files=None, options=0, index=None):
            u = Unit()
            u.name, u.args, u.files, u.options = filename, v.list() + (args or v.list()), list(unsaved_files or ()), options
            made.append(u)
            return u
    text = v.str('text', 'text')
    f, g = v.str('flag', 'text'), v.str('other flag', 'text')
    v.assume(f != g)
    a, b = v.list('-target', f), v.list('-target', g)
    options = v.int('options', 0, 4095)
    lang = v.choice('lang', ['c', 'cpp'])
    warn = v.choice('all_warnings', [False, True])
    extra = (['-std=c++11'] if lang == 'cpp' else []) + (['-Wall', '-Wextra'] if warn else [])
    with patched(ut, TranslationUnit=TU):
        x = ut.get_tu(text, lang, warn, a, options)
        y = ut.get_tu(text, lang, warn, b, options=options)
    for u, flag in (x, f), (y, g):
        v.prove(type(u) is Unit, 'the unit clang made')
        v.expect_list(u.args, ['-target', flag] + extra, 'with its own flags')
        v.prove(u.options == options, 'and options')
        v.prove(len(u.files) == 1 and u.files[0][0] == u.name, 'from the text in memory')
        v.equal(u.files[0][1], text, 'all of it')
    v.expect_list(a, ['-target', f], 'the flags are left as they were')
    v.expect_list(b, ['-target', g], 'the flags are left as they were')
