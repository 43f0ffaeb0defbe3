"""C15: errors clang reports stop the translation."""
from pyvc.spec import contract
from specs.common import patched, Raised, config
from specs.cursors import Cur, parser, loc
from clang.cindex import CursorKind

ERROR = 3       # CXDiagnostic_Error; CXDiagnostic_Fatal is 4


class Diag:
    def __init__(self, sc):
        self.severity = sc.int('severity', 0, 4)
        self.spelling = sc.str('spelling', 'text')
        self.location = loc(sc)


class Unit:
    """a translation unit"""

    def __init__(self, v):
        self.diagnostics = v.seq('diagnostics', Diag)
        self.cursor = Cur(v, CursorKind.TRANSLATION_UNIT, 'tu')
        self.cursor.children = v.seq('declarations', lambda sc: Cur(sc, CursorKind.VAR_DECL, location=loc(sc)))


def bad(v, unit):
    return v.some(unit.diagnostics, lambda d: d.severity >= ERROR)


@contract('C15.diagnostics', 'clangparser.Clang_Parser._parse_tu_diagnostics', 'C15', modes=('proof', 'bounded', 'concrete'))
def diagnostics(v):
    cp = v.mod('ctypeslib.codegen.clangparser')
    unit = Unit(v)
    r = Raised(cp.InvalidTranslationUnitException, cp.Clang_Parser._parse_tu_diagnostics, unit, 'input.c')
    v.prove((r.exc is not None) == bad(v, unit), 'raises exactly when some diagnostic is an error')


def recording(v, p):
    """the parser with start_element replaced by its contract: the declarations it was given"""
    p.seen = v.list()
    p.start_element = lambda node: p.seen.append(node)


@contract('C15.parse', 'clangparser.Clang_Parser.parse', ['C15', 'C16'], modes=('proof', 'bounded', 'concrete'))
def parse(v):
    cp = v.mod('ctypeslib.codegen.clangparser')
    p = parser(v, denote=False)
    p.flags = v.list('-target', 'i386')
    recording(v, p)
    unit = Unit(v)
    calls = []

    class Idx:
        @staticmethod
        def create(*a, **k):
            return Idx()

        def parse(self, path, args=None, unsaved_files=None, options=0):
            calls.append((path, args, options))
            return unit
    with patched(cp, Index=Idx):
        r = Raised(cp.InvalidTranslationUnitException, p.parse, 'input.c')
    if bad(v, unit):
        v.prove(r.exc is not None, 'a unit with errors is not translated')
    else:
        v.prove(r.exc is None, 'a unit without errors is translated')
        v.expect_list(p.seen, [v.each(unit.cursor.children, lambda c: [c])], 'every declaration is handled, in order')
    v.prove(len(calls) == 1 and calls[0][0] == 'input.c' and calls[0][2] == p.tu_options, 'clang gets the file and the options')


@contract('C15.parse_string', 'clangparser.Clang_Parser.parse_string', ['C15', 'C03'], modes=('proof', 'bounded', 'concrete'))
def parse_string(v):
    cp = v.mod('ctypeslib.codegen.clangparser')
    ut = v.mod('ctypeslib.codegen.util')
    p = parser(v, denote=False)
    p.flags = ['-target', 'i386']
    recording(v, p)
    unit = Unit(v)
    calls = []

    class TU:
        @staticmethod
        def from_source(name, args=None, unsaved_files=None, options=0, index=None):
            calls.append((list(args or ()), list(unsaved_files or ()), options))
            return unit
    with patched(ut, TranslationUnit=TU):
        r = Raised(cp.InvalidTranslationUnitException, p.parse_string, 'int i;')
    if bad(v, unit):
        v.prove(r.exc is not None, 'a unit with errors is not translated')
    else:
        v.prove(r.exc is None, 'a unit without errors is translated')
        v.expect_list(p.seen, [v.each(unit.cursor.children, lambda c: [c])], 'every declaration is handled, in order')
    v.prove(len(calls) == 1 and calls[0][0] == ['-target', 'i386'] and calls[0][1][0][1] == 'int i;' and
            calls[0][2] == p.tu_options, 'clang gets the text, the flags and the options')


class Options:
    """parsed command line"""
    debug = quiet = None
    output = '-'

    def __init__(self, v):
        self.files = []


@contract('C15.main', 'clang2py.main', 'C15', modes=('proof', 'bounded', 'concrete'))
def main(v):
    c2 = v.mod('ctypeslib.clang2py')
    outcome = v.choice('translation', ['translated', 'invalid'])
    opts = Options(v)
    calls = []

    class Conf:
        generate_comments = v.choice('comments', [False, True])

        def parse_options(self, o):
            assert o is opts

    class Cm:
        files = ['input.c']

        def __init__(self, o):
            self.stream = self

        def write(self, t):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Pars:
        def parse_args(self, argv):
            return opts

    class Mod:
        CodegenConfig = Conf

    def translate_files(files, out, cfg):
        calls.append((files, out, cfg))
        if outcome == 'invalid':
            raise c2.InvalidTranslationUnitException('error')
    with patched(c2, config=Mod, _make_parser=lambda cfg: Pars(), Input=Cm, Output=Cm, translate_files=translate_files):
        r = Raised((c2.InvalidTranslationUnitException, SystemExit), c2.main, ['input.c'])
    v.prove(len(calls) == 1 and list(calls[0][0]) == Cm.files, 'the given files are translated')
    if outcome == 'translated':
        v.prove(r.exc is None and not r.value, 'success: status 0')
    else:
        # sys.exit(status), sys.exit(main()) or an escaping exception: the tool fails
        bad_exit = isinstance(r.exc, SystemExit) and bool(r.exc.code) or isinstance(r.exc, c2.InvalidTranslationUnitException)
        v.prove(bool(r.value) or bad_exit, 'invalid input: non-zero status')
