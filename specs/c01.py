"""C01, C02: the members and the layout of records."""
from pyvc.spec import contract, And, Or
from pyvc.values import Ghost
from pyvc.core import Sym
from clang.cindex import CursorKind, TypeKind
from specs.common import generator, N, A
from specs.cursors import Cur, Typ, parser, handler, loc
from specs.types import tdesc, known_types, E

TK, CK = TypeKind, CursorKind


def members(v, td, union, size=None):
    """the fields of a record as clang lays them out: at byte offsets, one after the other (struct) or all at 0 (union);
    their FIELD_DECL descriptions by the contract of FIELD_DECL"""
    def make(sc):
        c = Cur(sc, CK.FIELD_DECL)
        off = 0 if union else sc.int('offset', 0)
        size = sc.int('bits', 0)
        t = Typ(sc.sub('t'), TK.INT)
        t.decl = Cur(sc.sub('d'), CK.NO_DECL_FOUND)
        c.type = t
        d = td.Field(c.spelling, td.Typedef(sc.str('tname'), None), off, size)
        d.at = sc.idx()
        d.orig = (d.name, d.type, d.offset, d.bits, d.type.name)
        c.desc = d
        return c
    if union:
        most = size.z if isinstance(size, Sym) else size
        facts = lambda L: [L.i('bits') % 8 == 0, L.i('bits') <= most * 8]
        return v.seq('fields', make, facts=facts)
    facts = lambda L: [L.i('offset') % 8 == 0, L.i('bits') % 8 == 0]
    g = Ghost({'end': 0}, lambda st, L: {'end': L.i('offset') + L.i('bits')}, lambda st, L: [L.i('offset') >= st['end']])
    return v.seq('fields', make, facts=facts, ghost=g)


def untouched(f):
    n, t, o, b, tn = f.orig
    return And(f.name == n, f.type is t, f.offset == o, f.bits == b, f.type.name == tn, f.is_bitfield is False)


def padding_size(td, f):
    """the padding type has the size of the gap"""
    t = f.type
    if type(t) is td.ArrayType and type(t.typ) is td.FundamentalType and t.typ.name == 'c_ubyte':
        return And(t.size * 8 == f.bits, not f.is_bitfield)
    return And(type(t) is td.FundamentalType and t.name == 'c_ubyte', f.bits == 8, not f.is_bitfield)


class Last:
    def __init__(self, end):
        self.offset, self.bits, self.is_bitfield = end, 0, False


def tiles(v, td):
    """the items follow each other without gap or overlap; those that are not padding are the fields, in order"""
    def step(st, f):
        if f.is_padding:
            return dict(end=f.offset + f.bits, ok=And(st['ok'], f.offset == st['end'], padding_size(td, f), f.bits > 0, f.name[:8] == 'PADDING_'),
                        n=st['n'], all=st['all'] + 1)
        return dict(end=f.offset + f.bits, ok=And(st['ok'], f.offset == st['end'], f.at == st['n'], untouched(f)), n=st['n'] + 1, all=st['all'] + 1)
    return v.monitor('tiles', dict(end=0, ok=True, n=0, all=0), step, count='all', last=lambda st: Last(st['end']))


def record(v, kind, fields, size):
    t = Typ(v.sub('rec'), TK.RECORD, fields=fields, size=size)
    v.assume(t.align > 0)
    c = Cur(v, kind, type=t, location=loc(v), children=fields)
    t.decl = c
    return c


def with_fields(p):
    """FIELD_DECL by its contract"""
    p.cursorkind_handler.FIELD_DECL = lambda c: c.desc
    return p


@contract('C01.struct', 'cursorhandler.CursorHandler.STRUCT_DECL, _record_decl, _fixup_record, _make_padding', ['C01', 'C02', 'C11'])
def struct(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = with_fields(parser(v))
    fields = members(v, td, False)
    size = v.int('size', 1)
    end = v.total(fields, 'fields', 'end') if not v.empty(fields) else 0
    v.assume(end <= size * 8)
    m = tiles(v, td)
    c = record(v, CK.STRUCT_DECL, fields, size)
    s = p.parse_cursor(c)
    v.prove(type(s) is td.Structure, 'a structure')
    v.equal(s.name, 'struct_' + c.spelling, 'of its name')
    v.equal(s.size, size, 'of its size')
    v.prove(p.is_registered(s.name) and p.get_registered(s.name) is s, 'registered under its name')
    st = v.fold(m, s.members)
    v.prove(st['ok'], 'the members lie at their offsets, the gaps are filled by padding')
    v.equal(st['end'], size * 8, 'the members fill the size of the record')
    v.equal(st['n'], len_(fields), 'every member, once')
    v.prove(p.parse_cursor(c) is s, 'a repeated declaration is the same entity')


def len_(xs):
    return xs.sym_len() if hasattr(xs, 'sym_len') else len(xs)


def union_members(v, td, fields, s):
    """the members of a union: those declared, in order, at offset 0, and padding if it is larger than them"""
    filled = v.some(fields, lambda f: f.desc.bits == s.size * 8)

    def same(a, b):
        if b is not None:
            v.prove(And(untouched(a), a.offset == 0, a.name == b.spelling), 'the members are those of the union')
        else:
            v.prove(And(a.is_padding, padding_size(td, a), a.name[:8] == 'PADDING_', a.offset == 0, a.bits == s.size * 8),
                    'padding fills a union that is larger than its members')
    v.expect_list(s.members, [v.each(fields, lambda f: [f])] + ([] if filled else [None]), 'every member, in order, once', eq=same)


@contract('C01.union', 'cursorhandler.CursorHandler.UNION_DECL, _record_decl, _fixup_record, _make_padding', ['C01', 'C02', 'C11'])
def union(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = with_fields(parser(v))
    size = v.int('size', 1)
    fields = members(v, td, True, size)
    c = record(v, CK.UNION_DECL, fields, size)
    s = p.parse_cursor(c)
    v.prove(type(s) is td.Union, 'a union')
    v.equal(s.name, 'union_' + c.spelling, 'of its name')
    v.equal(s.size, size, 'of its size')
    v.prove(p.is_registered(s.name) and p.get_registered(s.name) is s, 'registered under its name')
    union_members(v, td, fields, s)


@contract('C01.empty_record', 'cursorhandler.CursorHandler._record_decl, _fixup_record (records of size 0)', ['C01', 'C02'])
def empty_record(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = with_fields(parser(v))
    un = v.choice('record', ['struct', 'union'])
    fields = members(v, td, True, 0)
    c = record(v, CK.STRUCT_DECL if un == 'struct' else CK.UNION_DECL, fields, 0)
    s = p.parse_cursor(c)
    v.equal(s.size, 0, 'of size 0')
    v.expect_list(s.members, [v.each(fields, lambda f: [f.desc])], 'every member, in order, once',
                  eq=lambda a, b: v.prove(And(untouched(a), a.name == b.name), 'the members are those of the record'))


class Old:
    """a member as it was before the call, and the name of its type"""

    def __init__(self, f):
        self.f, self.name, self.type, self.tname, self.bits, self.offset, self.bit = f, f.name, f.type, f.type.name, f.bits, f.offset, f.is_bitfield


SCALAR = dict(c_char=1, c_byte=1, c_ubyte=1, c_int8=1, c_uint8=1, c_bool=1, c_int16=2, c_uint16=2, c_int32=4, c_uint32=4, c_int64=8, c_uint64=8)


@contract('C02.bitfields', 'cursorhandler.CursorHandler._fixup_record_bitfields_type', ['C02', 'C06', 'C12'], modes=('bounded', 'concrete'))
def bitfields(v):
    """records of up to three members, bit-fields of any width or others, of any integer or enumeration type"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    h = p.cursorkind_handler
    E = td.Enumeration('e', 4, 4)
    T = td.Typedef('te', E)
    names = ['c_char', 'c_bool', 'c_int32', 'c_uint64', 'c_int128', 'enum', 'typedef', 'char[1]']

    def make(sc):
        bit = sc.choice('bit-field', [True, False])
        n = sc.choice('type', names[:-1] if bit else ['c_char', 'c_int32', 'enum', 'char[1]'])
        if n in ('enum', 'typedef'):
            t, w = (E, 32) if n == 'enum' else (T, 32)
        elif n == 'char[1]':
            t, w = td.ArrayType(td.FundamentalType('c_char', 1, 1), 1), 8
        elif n == 'c_int128':
            t, w = td.FundamentalType(n, 16, 16), 64
        else:
            t, w = td.FundamentalType(n, SCALAR[n], SCALAR[n]), 1 if n == 'c_bool' and bit else SCALAR[n] * 8
        bits = w
        if bit:
            bits = sc.int('bits', 1, w)
        return td.Field(sc.str('name'), t, sc.int('offset', 0), bits, is_bitfield=bit)
    ms = v.seq('members', make, bound=3)
    old = [Old(f) for f in ms]
    s = td.Structure('struct_s', 4, ms, [], 16)
    h._fixup_record_bitfields_type(s)
    v.prove(E.name == 'e' and T.name == 'te' and T.typ is E, 'the types of the members are what they were')
    left = list(s.members)
    v.prove(len(left) == len(old), 'no member is lost')
    for f, o in zip(left, old):
        v.prove(f is o.f, 'every member, in order')
        v.prove(And(f.name == o.name, f.offset == o.offset, f.bits == o.bits), 'the names, widths and places of the members')
        if not f.is_bitfield:
            v.prove(f.type is o.type and not o.bit, 'a member that is no bit-field keeps its type')
            v.prove(f.type.name == o.tname, 'a member that is no bit-field keeps its type')
            continue
        if not o.bit:
            v.prove(o.tname == 'c_char' and type(o.type) is td.FundamentalType, 'only a character is stored in the unit of a bit-field')
        t = f.type
        if t is E or t is T:
            v.prove(t is o.type or not o.bit, 'the type of an enumeration is that of the member')
            size = 4
        else:
            v.prove(type(t) is td.FundamentalType and t.name in SCALAR and t.name != 'c_char', 'a type ctypes has bit-fields of')
            size = SCALAR.get(t.name, 0)
        v.prove(f.bits <= size * 8, 'the type is large enough for the bit-field')
        v.prove(t is E or t is T or t.name != 'c_bool' or o.tname == 'c_bool', 'a member of several bits is not a truth value')


def fits(td, f):
    """the padding has a type ctypes accepts for its bits"""
    t = f.type
    if type(t) is td.ArrayType:
        return And(t.typ.name == 'c_ubyte', t.size * 8 == f.bits, not f.is_bitfield)
    if not f.is_bitfield:
        return And(t.name == 'c_ubyte', f.bits == 8)
    return And(type(t) is td.FundamentalType, Or(*[And(t.name == n, f.bits <= SCALAR[n] * 8) for n in ('c_uint8', 'c_uint16', 'c_uint32', 'c_uint64')]))


@contract('C12.bitfield_padding', 'cursorhandler.CursorHandler._fixup_record, _make_padding', ['C02', 'C12'])
def bitfield_padding(v):
    """records with bit-fields anywhere; the types of bit-fields by the contract C02.bitfields"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    h = p.cursorkind_handler
    h._fixup_record_bitfields_type = lambda s: None

    def make(sc):
        f = td.Field(sc.str('name'), td.FundamentalType('c_int32', 4, 4), sc.int('offset', 0), sc.int('bits', 1), is_bitfield=sc.bool('bit'))
        f.at = sc.idx()
        f.is_bitfield = bool(f.is_bitfield)
        f.bits = sc.int('bits')
        f.orig = (f.name, f.type, f.offset, f.bits, f.is_bitfield)
        return f
    facts = lambda L: [L.i('bits') >= 1, Or(L.b('bit'), And(L.i('offset') % 8 == 0, L.i('bits') % 8 == 0))]
    g = Ghost({'end': 0}, lambda st, L: {'end': L.i('offset') + L.i('bits')}, lambda st, L: [L.i('offset') >= st['end']])
    ms = v.seq('members', make, facts=facts, ghost=g)
    size = v.int('size', 1)
    end = v.total(ms, 'members', 'end') if not v.empty(ms) else 0
    v.assume(end <= size * 8)

    def step(st, f):
        if f.is_padding:
            ok = And(st['ok'], f.offset == st['end'], f.bits > 0, fits(td, f), f.name[:8] == 'PADDING_')
            return dict(end=f.offset + f.bits, ok=ok, n=st['n'], all=st['all'] + 1)
        n, t, o, b, bit = f.orig
        ok = And(st['ok'], f.offset == st['end'], f.at == st['n'], f.name == n, f.type is t, f.offset == o, f.bits == b, f.is_bitfield == bit)
        return dict(end=f.offset + f.bits, ok=ok, n=st['n'] + 1, all=st['all'] + 1)
    m = v.monitor('tiles', dict(end=0, ok=True, n=0, all=0), step, count='all', last=lambda st: Last(st['end']))
    s = td.Structure('struct_s', 4, ms, [], size)
    h._fixup_record(s)
    st = v.fold(m, s.members)
    v.prove(st['ok'], 'the members lie at their bits, the gaps are filled by padding of types that hold it')
    v.equal(st['end'], size * 8, 'the members fill the size of the record')
    v.equal(st['n'], len_(ms), 'every member, once')
