"""C11: one definition per entity."""
from pyvc.spec import contract, And, Or
from specs.common import generator, config, Raised, N, A
from specs.cursors import Cur, Typ, parser, handler, loc
from specs.types import tdesc, known_types, E
from specs.c01 import members, tiles, record, union_members, with_fields, len_
from specs.c05 import below, maybe_registered, PARTS
from clang.cindex import CursorKind as CK, TypeKind as TK


def registry(v, p, td):
    """anything may have been registered before: descriptions by name, never two of one name"""
    def make(sc):
        k = sc.choice('class', ('record', 'typedef'))
        name = sc.str('name')
        d = td.Structure(name, 4, [], [], 4) if k == 'record' else td.Typedef(name, None)
        return (name, d)
    old = v.seq('earlier', make, distinct=('name',))
    p.all.update(old)
    p.all_set.update(old)
    return old


@contract('C11.register', 'clangparser.Clang_Parser.register, is_registered, get_registered', ['C11'])
def register(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    cp = v.mod('ctypeslib.codegen.clangparser')
    p = parser(v)
    old = registry(v, p, td)
    name = v.str('new')
    new = td.Typedef(name, None)
    known = v.exists(old, lambda e: e[0] == name)
    r = Raised(cp.DuplicateDefinitionException, p.register, name, new)
    if known:
        v.prove(r.exc is not None, 'a second, different definition is refused')
        v.prove(p.get_registered(name) is not new, 'and the first one stays')
    else:
        v.prove(r.exc is None and r.value is new, 'the new definition')
        v.prove(p.is_registered(name) and p.get_registered(name) is new, 'is registered under its name')
        v.prove(p.register(name, new) is new, 'registering it again gives the same')
    if not v.empty(old):
        e = v.elem(old)
        v.prove(p.is_registered(e[0]), 'the others stay registered')
        v.equal(p.get_registered(e[0]).name, e[1].name, 'as they were')


def declared_then_defined(v, un):
    """a record declared any of the ways clang reports a declaration without a definition, then defined"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = with_fields(parser(v))
    size = v.int('size', 1)
    fields = members(v, td, un == 'union', size)
    if un == 'struct':
        end = v.total(fields, 'fields', 'end') if not v.empty(fields) else 0
        v.assume(end <= size * 8)
        m = tiles(v, td)
    kind = CK.STRUCT_DECL if un == 'struct' else CK.UNION_DECL
    c = record(v, kind, fields, size)
    incomplete = v.choice('declared', ['incomplete in its file', 'defined elsewhere in its file'])
    ft = c.type if incomplete != 'incomplete in its file' else Typ(v.sub('fwd'), TK.RECORD, fields=v.list(), size=-2, align=-2)
    f = Cur(v.sub('f'), kind, spelling=c.spelling, type=ft, location=loc(v, 'floc'), children=v.list(), usr=c.usr)
    f.definition = c if incomplete != 'incomplete in its file' else None
    a = p.parse_cursor(f)
    v.prove(type(a) is (td.Structure if un == 'struct' else td.Union), 'a record')
    v.prove(p.is_registered(a.name) and p.get_registered(a.name) is a, 'registered under its name')
    v.prove(p.parse_cursor(f) is a, 'a repeated declaration is the same entity')
    # a definition in an included file may be visited or not
    s = p.parse_cursor(c) if incomplete == 'incomplete in its file' or v.choice('visited', [True, False]) else a
    v.prove(s is a, 'the definition is the same entity')
    v.prove(p.get_registered(a.name) is a, 'registered under its name')
    v.equal(s.name, un + '_' + c.spelling, 'of its name')
    v.equal(s.size, size, 'of its size')
    v.prove(s.location is not None, 'and is generated (it has a location)')
    if un == 'struct':
        st = v.fold(m, s.members)
        v.prove(st['ok'], 'with every member at its offset')
        v.equal(st['end'], size * 8, 'and of its size')
        v.equal(st['n'], len_(fields), 'every member, once')
    else:
        union_members(v, td, fields, s)
    v.prove(p.parse_cursor(f) is s, 'a later declaration is the same entity')


@contract('C11.struct', 'cursorhandler.CursorHandler._record_decl (declarations before the definition)', ['C11', 'C01', 'C02'])
def forward_struct(v):
    declared_then_defined(v, 'struct')


@contract('C11.union', 'cursorhandler.CursorHandler._record_decl (declarations before the definition)', ['C11', 'C01', 'C02'])
def forward_union(v):
    declared_then_defined(v, 'union')


@contract('C11.TYPEDEF_DECL', 'cursorhandler.CursorHandler.TYPEDEF_DECL', ['C11', 'C05'])
def typedef_decl(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    old = registry(v, p, td)
    to = below(v, v, td, 'to.', PARTS)
    name = v.str('alias')
    t = Typ(v.sub('named'), TK.TYPEDEF, canonical=to)
    c = Cur(v, CK.TYPEDEF_DECL, spelling=name, type=t, location=loc(v))
    t.decl = c
    if v.exists(old, lambda e: e[0] == name):
        obj = p.parse_cursor(c)
        v.equal(obj.name, name, 'a known name is the entity known by it')
    else:
        obj = p.parse_cursor(c)
        v.prove(type(obj) is td.Typedef, 'a typedef')
        v.equal(obj.name, name, 'of its name')
        v.prove(obj.typ is to.desc, 'of its type')
        v.prove(obj.location is not None, 'and is generated (it has a location)')
        v.prove(p.get_registered(name) is obj, 'registered under its name')
        v.prove(p.parse_cursor(c) is obj, 'a repeated typedef is the same entity')
    if not v.empty(old):
        e = v.elem(old)
        v.prove(p.is_registered(e[0]), 'the others stay registered')


class Thing:
    """a description; its handler is the one named like its class"""
    location = comment = None

    def __init__(self, name):
        self.name = name


@contract('C11.generate_all', 'codegenerator.Generator._generate, generate_all', ['C11', 'C10', 'C12', 'C13'])
def generate_all(v):
    g = generator(v)
    things = v.seq('things', lambda sc: Thing(sc.str('name')))
    log = g.log = v.list()
    g.Thing = lambda t: g.log.append(t.name)
    g.generate_all(things)
    v.expect_list(g.log, [v.each(things, lambda t: [t.name])], 'each is generated, in order')
    g.generate_all(things)
    v.expect_list(g.log, [v.each(things, lambda t: [t.name])], 'once, however often it is needed')


@contract('C11.generate_items', 'codegenerator.Generator.generate_items (lists of at most 2; two rounds)', ['C11', 'C10', 'C12', 'C13'], modes=('bounded',))
def generate_items(v):
    """the items asked for need others, which need nothing more (two rounds, a bound)"""
    g = generator(v)
    things = v.seq('things', lambda sc: Thing(sc.str('name')))
    later = v.seq('later', lambda sc: (Thing(sc.str('late')), True))
    first = Thing('first')
    log = g.log = v.list()

    def thing(t):
        g.log.append(t.name)
        if t is first:
            g.more.update(later)
    g.Thing = thing
    items = things + [first]
    g.generate_items(items)
    v.expect_list(g.log, [v.each(things, lambda t: [t.name]), 'first', v.each(later, lambda t: [t[0].name])],
                  'everything asked for, in order, then everything it needs, in order, each once')


@contract('C11.generate_round', 'codegenerator.Generator.generate_items (an arbitrary round, by the contract of generate_all)', ['C11', 'C10', 'C12', 'C13'], modes=('proof', 'bounded'))
def generate_round(v):
    """the invariant of its loop: whatever is still missing is on the list; it ends when nothing is"""
    g = generator(v)
    before = v.seq('before', lambda sc: (sc.str('done'), True), bound=1)
    asked = v.seq('asked', lambda sc: sc.str('asked'))
    nested = v.seq('nested', lambda sc: (sc.str('nested'), True), bound=1)
    needed = v.seq('needed', lambda sc: (sc.str('needed'), True))
    g.done.update(before)
    items = v.list()
    items.extend(asked)
    rounds = []

    def missing(x, lst):
        v.prove(Or(v.member(x, g.done), v.member(x, lst)), 'what is needed and not done is on the list of the next round')

    def all_of(lst):
        if rounds:
            v.forall(asked, lambda x: missing(x, lst))
            v.forall(needed, lambda e: missing(e[0], lst))
            v.round_done()
        rounds.append(1)
        v.forall(asked, lambda x: v.prove(v.member(x, lst), 'everything on the list is generated'))
        for_each(lst)

    def for_each(lst):
        g.done.update(nested)
        g.done.update(v.mapped(lst, lambda x: (x, True)))
        g.more.update(needed)
    g.generate_all = all_of
    v.rounds(items)
    g.generate_items(items)
    v.forall(asked, lambda x: v.prove(v.member(x, g.done), 'at the end, everything asked for is done'))
    v.forall(needed, lambda e: v.prove(v.member(e[0], g.done) if rounds else True, 'at the end, everything needed is done'))
