"""C12, C13: the module as a whole."""
from pyvc.spec import contract, And, Or, Not
from specs.common import generator, patched, N, A
from pyvc.rope import cat


def wrapping(v, cg):
    """contract of textwrap (a text without a word longer than a line is broken at blanks only, names have no blank or hyphen):
    one line here stands for any way of breaking it"""
    class TW:
        def __init__(self, width=70, **kw):
            self.indent = kw.get('initial_indent', '')
            v.prove(kw.get('break_long_words', True) is False, 'no name is broken: names may be longer than a line')
            v.prove(not set(kw) - {'initial_indent', 'subsequent_indent', 'break_long_words', 'break_on_hyphens', 'expand_tabs', 'tabsize'},
                    'no text is dropped by the wrapper')

        def wrap(self, text):
            return v.list(cat([self.indent, text]))

    class Mod:
        TextWrapper = TW
        wrap = staticmethod(lambda text, *a, **k: v.list(text))
    return patched(cg, textwrap=Mod) if v.symbolic else patched(cg)


@contract('C12.generate_code', 'codegenerator.Generator.generate_code', ['C12', 'C13', 'C18'])
def generate_code(v):
    cg = v.mod('ctypeslib.codegen.codegenerator')
    g = generator(v)
    g.names = v.seq('names', lambda sc: sc.str('name'))
    g.preloaded_dlls = v.seq('dlls', lambda sc: sc.str('dll'))
    print('imported = 1', file=g.imports)
    print('defined = 2', file=g.stream)
    with wrapping(v, cg):
        g.generate_code(v.list())
    out = v.program(g, 'output')
    v.expect_program(out, [('=', N('imported'), 1),
                           v.each(g.preloaded_dlls, lambda d: [('expr', ('call', A('ctypes', 'CDLL'), [d, A('ctypes', 'RTLD_GLOBAL')], []))]),
                           ('=', N('defined'), 2),
                           ('=', N('__all__'), ('list', [v.each(v.sorted(g.names), lambda n: [n])]))],
                     'imports, preloads, definitions, then __all__: the sorted list of every name defined')


@contract('C12.Structure', 'codegenerator.Generator.Structure, _get_undefined_head_dependencies, _get_undefined_body_dependencies', ['C12', 'C11', 'C13'])
def structure(v):
    """_generate by its contract: a record and what it needs are defined afterwards, a head is declared, a body defined"""
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    g.enable_structure_type = lambda: True

    def make(sc):
        k = sc.choice('class', ['pointer to record', 'record', 'array of records', 'typedef', 'pointers', 'array of pointers'])
        rec = td.Structure('struct_' + sc.str('of'), 4, [], [], 4)
        t = rec
        if k == 'pointer to record':
            t = td.PointerType(rec, 8, 8)
        elif k == 'array of records':
            t = td.ArrayType(rec, 3)
        elif k == 'typedef':
            t = td.Typedef('t_' + sc.str('alias'), rec)
        elif k == 'pointers':
            t = td.PointerType(td.PointerType(rec, 8, 8), 8, 8)
        elif k == 'array of pointers':
            t = td.ArrayType(td.PointerType(rec, 8, 8), 3)
        f = td.Field(sc.str('fname'), t, 0, 8)
        f.k, f.of = k, rec
        return f
    members = v.seq('members', make)
    g.head_generated.update(v.seq('heads', lambda sc: 'struct_' + sc.str('head'), bound=1))
    g.body_generated.update(v.seq('bodies', lambda sc: 'struct_' + sc.str('body'), bound=1))
    name = 'struct_' + v.str('name')
    s = td.Structure(name, 4, members, [], 4)
    behind = ('pointer to record', 'pointers', 'array of pointers')
    v.assume(Not(v.exists(members, lambda m: And(m.of.name == name, m.k not in behind))))
    g.log = v.list()
    g.ready = v.list()

    def ready(m):
        if m.k in behind:
            return m.of.name in g.head_generated
        if m.k == 'typedef':
            return m.type.name in g.ready
        return m.of.name in g.body_generated

    def generate(item, *args):
        if type(item) is td.StructureHead:
            if item.name not in g.head_generated:
                g.head_generated.add(item.name)
                g.log.append(('head', item.name))
        elif type(item) is td.StructureBody:
            if item.struct is s:
                if not v.empty(members):
                    v.prove(ready(v.elem(members)), 'everything a member needs is defined before the fields')
                g.log.append(('body', item.name))
            g.body_generated.add(item.name)
        elif type(item) in (td.PointerType, td.ArrayType):
            t = item
            while type(t) in (td.PointerType, td.ArrayType):
                t = t.typ
            g.head_generated.add(t.name)
        elif type(item) is td.Typedef:
            g.ready.append(item.name)
        else:
            g.head_generated.add(item.name)
            g.body_generated.add(item.name)
    g._generate = generate
    head, body = name in g.head_generated, name in g.body_generated
    g.done[s] = True
    g.Structure(s)
    v.expect_list(g.log, ([] if head else [('head', name)]) + ([] if head and body else [('body', name)]),
                  'declared and defined once, in this order')
    v.prove(s in g.done, 'and marked as done')


@contract('C12.parts', 'codegenerator.Generator.PointerType, ArrayType, FunctionType, CvQualifiedType, Argument, _get_real_type', ['C12', 'C11', 'C13'])
def parts(v):
    """whatever a derived type is made of is generated: at once, or (records behind pointers) declared at once and generated later"""
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    g.more.update(v.seq('more', lambda sc: (td.Structure('struct_' + sc.str('later'), 4, [], [], 4), True), bound=1))

    def some(sc, kinds=('scalar', 'struct', 'union', 'typedef', 'pointer', 'function', 'enum')):
        k = sc.choice('class', kinds)
        n = sc.str('tname')
        return {'scalar': lambda: td.FundamentalType(n, 32, 32), 'struct': lambda: td.Structure('struct_' + n, 4, [], [], 4),
                'union': lambda: td.Union('union_' + n, 4, [], [], 4), 'typedef': lambda: td.Typedef(n, td.FundamentalType('c_int32', 32, 32)),
                'pointer': lambda: td.PointerType(td.FundamentalType(n, 32, 32), 64, 64), 'enum': lambda: td.Enumeration(n, 32, 32),
                'function': lambda: td.FunctionType(td.FundamentalType(n, 32, 32), [])}[k]()
    of = some(v)
    log = g.log = v.list()
    g._generate = lambda item, *a: g.log.append(item)
    what = v.choice('derived', ['pointer', 'array', 'function', 'qualified', 'argument'])
    if what == 'pointer':
        record = type(of) in (td.Structure, td.Union)
        g.PointerType(td.PointerType(of, 64, 64))
        if record:
            v.prove(Or(v.has(g.log, of), And(v.has(g.log, of.get_head()), of in g.more)), 'a record behind a pointer is declared, and generated later')
        else:
            v.prove(v.has(g.log, of), 'what a pointer points to')
    elif what == 'array':
        g.ArrayType(td.ArrayType(of, v.int('n', 0)))
        v.prove(v.has(g.log, of), 'the elements of an array')
    elif what == 'qualified':
        g.CvQualifiedType(td.CvQualifiedType(of, True, False))
        v.prove(v.has(g.log, of), 'the type that is qualified')
    elif what == 'argument':
        g.Argument(td.Argument(v.str('pname'), of))
        v.prove(v.has(g.log, of), 'the type of a parameter')
    else:
        f = td.FunctionType(of, [])
        f.arguments = v.seq('args', lambda sc: td.Argument(sc.str('aname'), None))
        g.FunctionType(f)
        v.prove(v.has(g.log, of), 'the result of a function type')
        v.forall(f.arguments, lambda a: v.prove(v.has(g.log, a), 'the parameters of a function type'))
