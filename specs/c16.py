"""C16: what is requested depends on the files the declarations are in."""
from pyvc.spec import contract, And, Not
from specs.common import patched, Raised, config
from specs.cursors import Cur, parser, loc, File, Loc
from clang.cindex import CursorKind

MODES = ('proof', 'bounded', 'concrete')


def same_file(v, a, b):
    return v.os_path.abspath(a) == v.os_path.abspath(b)


@contract('C16.start_element', 'clangparser.Clang_Parser.filter_location, start_element', 'C16')
def start_element(v):
    p = parser(v, denote=False)
    files = v.seq('files', lambda sc: sc.str('name', 'text'))
    filtering = v.choice('filter', [True, False])
    if filtering:
        p.filter_location(files)
    node = Cur(v, CursorKind.VAR_DECL, location=loc(v))
    if v.choice('located', [True, False]):
        name = node.location.file.name
    else:
        node.location.file = name = None
    p.handled = v.list()

    def parse_cursor(c):
        p.handled.append(c)
        return v.choice('result', [None, True])
    p.parse_cursor = parse_cursor
    p.start_element(node)
    if not filtering:
        v.expect_list(p.handled, [node], 'without a filter every declaration is handled')
    elif name is None:
        v.expect_list(p.handled, [], 'a declaration of no file is not of the given files')
    elif v.some(files, lambda f: same_file(v, f, name)):
        v.expect_list(p.handled, [node], 'a declaration of a given file is handled once')
    else:
        v.expect_list(p.handled, [], 'a declaration of another file is not handled')


@contract('C16.start_element_children', 'clangparser.Clang_Parser.start_element', ['C16', 'C11'])
def start_element_children(v):
    p = parser(v, denote=False)
    children = v.seq('children', lambda sc: Cur(sc, CursorKind.VAR_DECL, location=loc(sc)))
    node = Cur(v, CursorKind.UNEXPOSED_DECL, location=loc(v), children=children)
    p.handled = v.list()

    def parse_cursor(c):
        p.handled.append(c)
        return False if c is node else None
    p.parse_cursor = parse_cursor
    p.start_element(node)
    v.expect_list(p.handled, [node, v.each(children, lambda c: [c])], 'the declarations inside a linkage specification are handled')


class Unit:
    def __init__(self, v, children):
        self.diagnostics = v.list()
        self.cursor = Cur(v, CursorKind.TRANSLATION_UNIT, 'tu', children=children)


@contract('C16.parse_twice', 'clangparser.Clang_Parser.parse (a file given twice)', 'C16')
def parse_twice(v):
    cp = v.mod('ctypeslib.codegen.clangparser')
    p = parser(v, denote=False)
    path = v.str('path', 'text')
    decl = Cur(v, CursorKind.VAR_DECL, location=Loc(File(path), v.int('line', 1)))
    p.handled = v.list()
    p.parse_cursor = lambda c: p.handled.append(c)

    class Idx:
        @staticmethod
        def create(*a, **k):
            return Idx()

        def parse(self, f, args=None, unsaved_files=None, options=0):
            return Unit(v, v.list(decl))
    with patched(cp, Index=Idx):
        p.parse(path)
        p.parse(path)
    v.expect_list(p.handled, [decl], 'a file given twice is translated once')


class FakeParser:
    """contract of the parser: what it was asked, in order"""
    _vc_state = True

    def __init__(self, v, result, valid=lambda f: True):
        self.filters = v.list()
        self.parsed = v.list()
        self.result = result
        self.valid = valid
        self.error = v.mod('ctypeslib.codegen.clangparser').InvalidTranslationUnitException

    def filter_location(self, files):
        assert not self.parsed
        self.filters.append(files)

    def parse(self, f):
        if not self.valid(f):
            raise self.error(f)
        self.parsed.append(f)

    def get_result(self):
        return self.result


class Readable:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contract('C16.parse_input_files', 'codegenerator.CodeTranslator.parse_input_files', ['C16', 'C15', 'C13'])
def parse_input_files(v):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    c = config(v)
    c.filter_location = v.choice('filter_location', [True, False])
    t = cg.CodeTranslator(c)
    exists = v.pred('exists', 'str')
    files = v.seq('files', lambda sc: sc.str('name', 'text'))
    result = v.seq('result', lambda sc: Cur(sc, CursorKind.VAR_DECL))
    valid = v.pred('valid', 'str')
    fp = FakeParser(v, result, valid)

    def make_clang_parser():
        t.parser = fp
        return fp
    t.make_clang_parser = make_clang_parser

    def open_(name, *a):
        if exists(name):
            return Readable()
        raise FileNotFoundError(name)
    with patched(cg, open=open_):
        r = Raised((OSError, fp.error), t.parse_input_files, files)
    if v.some(files, lambda f: Not(And(exists(f), valid(f)))):
        v.prove(r.exc is not None, 'a file that cannot be opened, or that is not valid, is an error')
    else:
        v.prove(r.exc is None, 'no error for readable files')
        v.expect_list(fp.parsed, [v.each(files, lambda f: [f])], 'every file is parsed, in order')
        v.expect_list(t.items, [v.each(result, lambda i: [i])], 'everything found is an item')
        v.expect_list(fp.filters, [files] if c.filter_location else [], 'declarations are filtered by the given files',
                      eq=lambda a, b: v.expect_list(a, [v.each(b, lambda f: [f])], 'the filter has all given files'))


@contract('C16.get_result', 'clangparser.Clang_Parser.get_result', ['C16', 'C10', 'C11', 'C13'])
def get_result(v):
    """registered declarations (all of which have a location)"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    made = ('Typedef', 'Enumeration', 'EnumValue', 'Function', 'Structure', 'Union', 'Variable', 'Macro')

    def make(sc):
        k = sc.choice('class', made + ('Field', 'FundamentalType'))
        d = object.__new__(getattr(td, k))
        d.name = sc.str('name')
        d.k = k
        d.location = (sc.str('file', 'line'), sc.int('line'))
        return (d.name, d)
    entries = v.seq('registered', make, distinct=('name',))
    p.all.update(entries)
    p.all_set.update(entries)
    v.expect_list(p.get_result(), [v.each(entries, lambda e: [e[1].name] if e[1].k in made else [])], 'every declaration, in order, once',
                  eq=lambda a, b: v.equal(a.name, b, 'every declaration, in order, once'))


@contract('C16.parse_input', 'codegenerator.CodeTranslator.parse_input_file, parse_input_string, preload_dlls, make_code_generator', ['C16', 'C18', 'C04'],
          modes=('proof', 'bounded'))
def parse_input(v):
    """inputs given one after the other: what each has is added to what was found before"""
    cg = v.mod('ctypeslib.codegen.codegenerator')
    c = config(v)
    t = cg.CodeTranslator(c)
    made = []
    before = v.seq('before', lambda sc: Cur(sc, CursorKind.VAR_DECL))
    result = v.seq('result', lambda sc: Cur(sc.sub('r'), CursorKind.VAR_DECL))
    t.items.extend(before)
    fp = FakeParser(v, result)
    fp.parse_string = lambda text, *a, **k: fp.parsed.append(text)

    def make_clang_parser():
        made.append(1)
        t.parser = fp
        return fp
    t.make_clang_parser = make_clang_parser
    how = v.choice('parser', ['made', 'to be made'])
    if how == 'made':
        t.parser = fp
    x = v.str('input', 'text')
    if v.choice('input is', ['file', 'string']) == 'file':
        t.parse_input_file(x)
    else:
        t.parse_input_string(x)
    v.prove(len(made) == (how != 'made'), 'one parser for all inputs')
    v.expect_list(fp.parsed, [x], 'the input is parsed')
    v.expect_list(t.items, [v.each(before, lambda i: [i]), v.each(result, lambda i: [i])], 'what it has is added to the items')
    # libraries to be loaded before
    c.preloaded_dlls = v.seq('dlls', lambda sc: sc.str('dll', 'text'))
    with patched(cg, Library=lambda name, nm=None: (name, nm), Generator=lambda out, cfg: (out, cfg)):
        t.preload_dlls()
        v.expect_list(t.preloaded_libraries, [v.each(c.preloaded_dlls, lambda d: [d])], 'every library to preload, in order',
                      eq=lambda a, b: v.equal(a[0], b, 'every library to preload, in order'))
        out = object()
        g = t.make_code_generator(out)
        v.prove(t.generator is g and g[0] is out and g[1] is c, 'the generator writes to the output, with the configuration')
