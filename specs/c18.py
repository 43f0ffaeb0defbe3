"""C18: command line options reach the translation."""
from pyvc import frame
from pyvc.spec import contract
from pyvc.rope import SymStr, Join, IDENT
from pyvc.values import parts_of
from specs.common import patched, Raised, config


ARG = IDENT | set('-=+./,:;%@')


def table(td):
    """what the documentation says of the letters of -k"""
    return dict(a=td.Alias, c=td.Structure, d=td.Variable, e=td.Enumeration, f=td.Function, m=td.Macro, s=td.Structure,
                t=td.Typedef, u=td.Union)


class Rec:
    def __init__(self, *a, **k):
        self.a, self.k = a, k


class Options:
    """a parsed command line: any value of the options of one group"""

    def __init__(self, v, group):
        text = lambda sc: sc.str('text', 'text')
        seq = lambda g: v.seq(g, text) if g == group else v.list()
        flag = lambda n: v.bool(n) if group == 'flags' else False
        self.symbols, self.expressions, self.preload, self.dll = seq('symbols'), seq('expressions'), seq('preload'), seq('dll')
        self.verbose, self.generate_comments = flag('verbose'), flag('comments')
        self.generate_docstrings, self.generate_locations = flag('doc'), flag('locations')
        self.generate_includes = flag('includes')
        self.nm = v.str('nm', 'text')
        self.target = v.choice('target', [None, 'i386-pc-linux-gnu']) if group == 'clang' else None
        self.modules = []
        self.kind = v.seq('kind', lambda sc: sc.choice('letter', list('acdefmstu'))) if group == 'kind' else 'cdefstu'
        self.clang_args = None


class Re:
    """contract of re.compile: the pattern"""
    @staticmethod
    def compile(p, *a):
        return Rec(p, *a)


@contract('C18.parse_options', 'config.CodegenConfig.parse_options', ['C18', 'C10'])
def parse_options(v):
    cf = v.mod('ctypeslib.codegen.config')
    c = config(v)
    o = Options(v, v.choice('group', ['symbols', 'expressions', 'preload', 'dll', 'flags', 'clang']))
    with patched(cf, re=Re, Library=lambda name, *a, **k: Rec(name, *a, **k)):
        c.parse_options(o)
    each = lambda s: [v.each(s, lambda x: [x])]
    v.expect_list(c.symbols, each(o.symbols), 'the symbols')
    v.expect_list(c.expressions, each(o.expressions), 'the expressions, compiled as given',
                  eq=lambda a, b: v.prove(len(a.a) == 1 and a.a[0] == b, 'expression'))
    v.expect_list(c.preloaded_dlls, each(o.preload), 'the preloaded libraries')

    def lib(a, b):
        v.prove(a.a[0] == b, 'library name')
        v.prove((a.k.get('nm') if 'nm' in a.k else a.a[2]) == o.nm, 'nm program of the library')
    v.expect_list(c.searched_dlls, each(o.dll), 'the libraries, in order', eq=lib)
    for a, b, n in ((c.verbose, o.verbose, 'verbosity'), (c.generate_comments, o.generate_comments, 'comments'),
                    (c.generate_docstrings, o.generate_docstrings, 'docstrings'),
                    (c.generate_locations, o.generate_locations, 'locations')):
        v.prove(bool(a) == bool(b), n)
    v.prove(bool(c.filter_location) != bool(o.generate_includes), 'declarations of included files unless includes are asked for')
    v.expect_list(c.clang_opts, [] if o.target is None else ['-target', o.target], 'the target')


@contract('C18.kinds', 'config.CodegenConfig._parse_options_types, _init_types', ['C18', 'C10'])
def kinds(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    c = config(v)
    o = Options(v, 'kind')
    tab = table(td)
    default = v.choice('kinds', ['given', 'default'])
    if default == 'given':
        c._parse_options_types(o)
    for t in [v.choice('kind of declaration', sorted(set(tab.values()), key=lambda t: t.__name__))]:
        letters = [k for k in tab if tab[k] is t]
        has = v.member(t, c.types)
        if default == 'given':
            v.prove(bool(has) == v.some(o.kind, lambda k: k in letters), 'a kind is selected exactly when its letter is given')
        else:
            v.prove(bool(has) == any(k in 'cdefstu' for k in letters), 'the default kinds')


@contract('C18.clang_args', 'config.CodegenConfig._parse_options_clang_opts', ['C18', 'C03'])
def clang_args(v):
    c = config(v)
    o = Options(v, 'clang')
    args = v.seq('args', lambda sc: sc.str('arg', charset=frozenset(ARG)))
    first = v.str('first', charset=frozenset(ARG))
    space = v.choice('space', [' ', '  '])
    if v.choice('given', [True, False]):
        if v.mode == 'proof':
            o.clang_args = SymStr((Join(space, [first] + parts_of(args)),))
        else:
            o.clang_args = first
            for a in args:
                o.clang_args = o.clang_args + space + a
    c._parse_options_clang_opts(o)
    want = [] if o.target is None else ['-target', o.target]
    if o.clang_args is not None:
        want += [first, v.each(args, lambda a: [a])]
    v.expect_list(c.clang_opts, want, 'the target, then every clang argument, in order')


class Recorder:
    """the translation, as a record of what it was asked"""

    def __init__(self, log, name):
        self.__dict__['log'] = log
        self.__dict__['name'] = name

    def __getattr__(self, n):
        return lambda *a, **k: self.log.append((n, a, k))


@contract('C18.translate_files', 'codegenerator.translate_files', ['C18', 'C16'], modes=('proof', 'bounded', 'concrete'))
def translate_files(v):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    log = []
    made = []

    def tr(cfg):
        made.append(cfg)
        return Recorder(log, 't')
    c = config(v)
    out = Rec()
    files = v.choice('files', [['a.c'], ['a.c', 'b.c'], 'a.c'])
    with patched(cg, CodeTranslator=tr):
        cg.translate_files(files, out, c)
    v.prove(len(made) == 1 and made[0] is c, 'with the given configuration')
    names = [x[0] for x in log]
    v.prove(names.count('preload_dlls') == 1 and names[-1] == 'generate_code' and log[-1][1][0] is out,
            'libraries are preloaded, the module goes to the given output')
    parsed = [x for x in log if x[0].startswith('parse_input')]
    v.prove(len(parsed) == 1 and (parsed[0][0] == 'parse_input_file') == isinstance(files, str) and
            list(parsed[0][1][0]) == list(files), 'the given files are parsed')


class Module:
    """a translation whose module is known"""

    def __init__(self, log):
        self.log = log

    def preload_dlls(self):
        self.log.append(('preload_dlls', ()))

    def parse_input_string(self, text):
        self.log.append(('string', (text,)))

    def parse_input_file(self, name):
        self.log.append(('file', (name,)))

    def parse_input_files(self, names):
        self.log.append(('files', tuple(names)))

    def generate_code(self, output):
        self.log.append(('generate', ()))
        output.write('# -*- coding: utf-8 -*-\nfirst = 1\ndef second():\n    return first + 1\n')
        return 7


@contract('C18.translate', 'codegenerator.translate, translate_files', ['C18', 'C12', 'C04'], modes=('proof', 'bounded', 'concrete'))
def translate(v):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    log = []
    made = []

    def tr(cfg):
        made.append(cfg)
        return Module(log)
    c = config(v) if v.choice('configuration', [True, False]) else None
    src, how = v.choice('input', [('int a;', 'string'), ('a.h', 'file'), (['a.h', 'b.h'], 'files')])
    out = v.choice('output', [True, False])
    f = cg.io.StringIO() if out else None
    with patched(cg, CodeTranslator=tr):
        fn = cg.translate if how == 'string' else cg.translate_files
        r = fn(src, f, c) if v.choice('call', ['positional', 'keywords']) == 'positional' else fn(src, outfile=f, cfg=c)
    v.prove(len(made) == 1 and (made[0] is c if c is not None else made[0] is not None),
            'one translation, with the configuration given')
    v.prove([x[0] for x in log] == ['preload_dlls', how, 'generate'], 'libraries are preloaded, the input parsed, the module generated')
    v.prove(list(log[1][1]) == (src if how == 'files' else [src]), 'the input given is what is parsed')
    if out:
        v.prove(f.getvalue().endswith('return first + 1\n') and f.getvalue().startswith('# -*- coding'),
                'the module is left in the output as it was generated')
    else:
        v.prove(r.first == 1 and r['second']() == 2, 'the module is executed, its names are returned')


@contract('C18.make_clang_parser', 'codegenerator.CodeTranslator.make_clang_parser, parse_input_string', ['C18', 'C03', 'C08'], modes=('proof', 'bounded', 'concrete'))
def make_clang_parser(v):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    td = v.mod('ctypeslib.codegen.typedesc')
    c = config(v)
    macros = v.choice('macros', [False, True])
    if macros:
        c.types.append(td.Macro)
    c.generate_comments = v.choice('comments', [False, True])
    c.clang_opts = flags = ['-target', 'arm', '-DX']
    frame.watch(c)      # (C04)
    log = []
    made = []

    class CP:
        @staticmethod
        def Clang_Parser(f):
            made.append(list(f))
            return Recorder(log, 'p')
    t = cg.CodeTranslator(c)
    with patched(cg, clangparser=CP):
        t.make_clang_parser()
    v.prove(made == [['-target', 'arm', '-DX']], 'the parser has the clang arguments of the configuration')
    asked = [x[0] for x in log]
    v.prove(('activate_macros_parsing' in asked) == macros, 'macros are parsed when asked for')
    v.prove(('activate_comment_parsing' in asked) == c.generate_comments, 'comments are parsed when asked for')


@contract('C18.main', 'clang2py.main', 'C18', modes=('proof', 'bounded', 'concrete'))
def main(v):
    c2 = v.mod('ctypeslib.clang2py')
    log = []

    class O:
        debug = v.choice('debug', [None, True])
        quiet = v.choice('quiet', [False, 'quiet'])
        files = []
    opts = O()

    class Conf:
        generate_comments = v.choice('comments', [False, True])

        def parse_options(self, o):
            log.append(('options', o))

    class Cm:
        def __init__(self, o):
            self.files = ['a.c', 'b.c']
            self.stream = self
            log.append(('given', o))

        def write(self, t):
            log.append(('text', t))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Pars:
        def parse_args(self, argv):
            log.append(('argv', list(argv)))
            return opts

    class Mod:
        CodegenConfig = Conf

    class Logging:
        INFO, DEBUG, ERROR, WARNING = 20, 10, 40, 30

        @staticmethod
        def basicConfig(**k):
            log.append(('level', k['level']))
    with patched(c2, config=Mod, _make_parser=lambda cfg: Pars(), Input=Cm, Output=Cm, logging=Logging,
                 translate_files=lambda f, out, cfg: log.append(('translate', f, out, cfg))):
        r = c2.main(['-x', 'a.c', 'b.c'])
    kinds = [x[0] for x in log]
    v.prove(('argv', ['-x', 'a.c', 'b.c']) in log, 'the command line is parsed')
    v.prove([x[1] is opts for x in log if x[0] == 'options'] == [True], 'the configuration has the options')
    v.prove([x[1] is opts for x in log if x[0] == 'given'] == [True, True], 'input and output are those of the options')
    tr = [x for x in log if x[0] == 'translate']
    v.prove(len(tr) == 1 and tr[0][1] == ['a.c', 'b.c'] and isinstance(tr[0][2], Cm) and isinstance(tr[0][3], Conf),
            'the files are translated into the output')
    v.prove(kinds.index('options') < kinds.index('translate'), 'the options are taken over before the translation')
    level = [x[1] for x in log if x[0] == 'level'][-1]
    v.prove(level == (10 if opts.debug else 40 if opts.quiet else 20), 'verbosity')
    v.prove(not r, 'success')
    v.prove(all(t.startswith('#') for k, t in [x for x in log if x[0] == 'text']) and (Conf.generate_comments or 'text' not in kinds),
            'nothing but comments is written before the module')


@contract('C18.output', 'clang2py.Output', 'C18', modes=('proof', 'bounded', 'concrete'))
def output(v):
    c2 = v.mod('ctypeslib.clang2py')
    log = []

    class File:
        def close(self):
            log.append('close')

    class O:
        output = v.choice('output', ['-', 'some/file.py'])
    std, f = File(), File()

    class Sys:
        stdout = std

    def open_(name, mode='r', *a, **k):
        log.append((name, mode[:1]))
        return f
    with patched(c2, open=open_, sys=Sys):
        with c2.Output(O()) as o:
            stream = o.stream
            v.prove('close' not in log, 'the output is open during the translation')
    if O.output == '-':
        v.prove(stream is std and log == [], 'standard output when no file is named')
    else:
        v.prove(stream is f and log == [('some/file.py', 'w'), 'close'], 'the named file is written and closed')


@contract('C18.input', 'clang2py.Input', ['C18', 'C16'], modes=('proof', 'bounded', 'concrete'))
def input_(v):
    c2 = v.mod('ctypeslib.clang2py')

    class F:
        def __init__(self, sc):
            self.name = sc.str('name', 'text')

        def close(self):
            pass

    class O:
        files = v.seq('files', F)
    with c2.Input(O()) as i:
        v.expect_list(i.files, [v.each(O.files, lambda f: [f.name])], 'the given files, in order')


# what the command line means: (arguments, option, value)
CASES = [([], 'symbols', []), ([], 'expressions', []), ([], 'dll', []), ([], 'preload', []), ([], 'modules', []), ([], 'target', None),
         ([], 'generate_comments', False), ([], 'generate_docstrings', False), ([], 'generate_locations', False),
         ([], 'generate_includes', False), ([], 'verbose', False), ([], 'kind', 'cdefstu'), ([], 'nm', 'nm'), ([], 'output', '-'),
         ([], 'clang_args', None), ([], 'debug', None), ([], 'quiet', False)]
for _f in (('-s', '--symbol', 'symbols'), ('-r', '--regex', 'expressions'), ('-l', '--include-library', 'dll'),
           ('-p', '--preload', 'preload'), ('-m', '--module', 'modules')):
    for _n in _f[:2]:
        CASES.append(([_n, 'V1'], _f[2], ['V1']))
        CASES.append(([_n, 'V1', _n, 'V2', _n, 'V1'], _f[2], ['V1', 'V2', 'V1']))
for _n, _d in (('-c', 'generate_comments'), ('--comments', 'generate_comments'), ('-d', 'generate_docstrings'),
               ('--doc', 'generate_docstrings'), ('-e', 'generate_locations'), ('--show-definition-location', 'generate_locations'),
               ('-i', 'generate_includes'), ('--includes', 'generate_includes'), ('-v', 'verbose'), ('--verbose', 'verbose'),
               ('--debug', 'debug')):
    CASES.append(([_n], _d, True))
for _n, _d in (('-t', 'target'), ('--target', 'target'), ('--nm', 'nm'), ('-o', 'output'), ('--output', 'output')):
    CASES.append(([_n, 'V1'], _d, 'V1'))
for _n in ('-k', '--kind'):
    CASES += [([_n, 'acdefmstu'], 'kind', 'acdefmstu'), ([_n, 'm'], 'kind', 'm')]
CASES += [(['--clang-args=-DX  -DY=1'], 'clang_args', '-DX  -DY=1'), (['--clang-args', '-DX -I/a'], 'clang_args', '-DX -I/a'),
          (['-q'], 'quiet', 'quiet'), (['--quiet'], 'quiet', 'quiet')]


@contract('C18.command_line', 'clang2py._make_parser', ['C18', 'C10'], modes=('proof', 'bounded', 'concrete'))
def command_line(v):
    """every option, alone and before or after the files; argparse itself is trusted"""
    c2 = v.mod('ctypeslib.clang2py')
    args, name, want = v.choice('case', CASES)
    first = v.choice('first', [True, False])
    cfg = config(v)
    o = c2._make_parser(cfg).parse_args(args + ['/dev/null'] if first else ['/dev/null'] + args)
    got = getattr(o, name)
    v.prove((list(got) if isinstance(want, list) else got) == want, 'the option has its documented value')
    v.prove([f.name for f in o.files] == ['/dev/null'], 'the files are the files given')
    for f in o.files:
        f.close()
    base = c2._make_parser(cfg).parse_args(['/dev/null'])
    for f in base.files:
        f.close()
    same = [n for n in vars(base) if n not in ('files', name, 'w')]
    v.prove(all(str(getattr(base, n)) == str(getattr(o, n)) for n in same), 'the other options keep their defaults')
    if not v.symbolic:
        return
    lb = v.choice('bad', ['x', 'cz', ''])
    r = Raised(SystemExit, c2._make_parser(cfg).parse_args, ['-k', lb, '/dev/null'])
    v.prove((r.exc is None) == (lb == ''), 'unknown kinds are rejected')
    if r.exc is None:
        for f in r.value.files:
            f.close()


@contract('C18.modules', 'config.CodegenConfig._parse_options_modules', ['C18'], modes=('proof', 'bounded'))
def modules(v):
    cf = v.mod('ctypeslib.codegen.config')
    c = config(v)
    items = v.seq('items', lambda sc: (sc.str('item'), sc.choice('value', [int, 3, 'text', len, dict])), distinct=('item',))
    name = v.choice('module name', ['one', 'one.two', 'one.two.three'])
    full = v.str('__name__')

    class Module:
        pass

    class Named:
        __name__ = full

        @property
        def __dict__(self):
            d = v.dict()
            d.update(items)
            return d

        def __getattr__(self, n):
            raise AttributeError(n)
    mod = Named()
    for n in reversed(name.split('.')[1:]):
        m = Module()
        setattr(m, n, mod)
        mod = m
    asked = []

    def load(n, *a, **k):
        asked.append(n)
        return mod
    o = Options(v, 'none')
    o.modules = v.list(name)
    with patched(cf, __import__=load):
        c._parse_options_modules(o)
    v.prove(asked == [name], 'the module is loaded')
    v.expect_list(c.known_symbols.items(), [v.each(items, lambda e: [(e[0], full)] if isinstance(e[1], type) else [])],
                  'every class of the module is known, by the name of the module')
