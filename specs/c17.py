"""C17: the run-time helpers of generated modules (the templates in data/, verified as they stand)."""
import os
from pyvc import front
from pyvc.hooks import Pack, PACK
from pyvc.spec import contract, And
from pyvc.values import IList, Seg, VDict, parts_of
from pyvc.rope import SymStr
from specs.common import Raised


def template(v, name, **ns):
    """the template executed as part of a module"""
    path = os.path.join(os.path.dirname(v.mod('ctypeslib').__file__), 'data', name + '.tpl')
    with open(path) as f:
        src = f.read()
    ns = dict(ns, __name__='ctypeslib.data.' + name)
    if v.symbolic:
        front.exec_src(src, path, ns['__name__'], ns)
    else:
        exec(compile(src, path, 'exec'), ns)
    return ns


class Base:
    """ctypes.Structure / Union: contract of the keyword constructor"""
    _vc_state = True

    def __init__(self, **kw):
        self.given = kw[PACK].v if PACK in kw else kw
    __init__._vc_star = True


class Ct:
    Structure = Base
    Union = Base


def helpers(v):
    return template(v, 'structure_type', ctypes=Ct)


def rows(v, lst, f):
    """f(e) for every element, as the list a class attribute holds"""
    if v.mode == 'proof':
        return IList([Seg(p.seq, maps=p.maps + (lambda x, i: f(x),)) for p in parts_of(lst)])
    return (IList if v.symbolic else list)([f(e) for e in lst])


class Field:
    def __init__(self, sc):
        self.name = sc.str('name')
        self.type = sc.int('type')
        self.row = (self.name, self.type) + sc.choice('width', [(), (3,)])


@contract('C17.get_type', 'data/structure_type.tpl: Structure.get_type', 'C17')
def get_type(v):
    ns = helpers(v)
    fields = v.seq('fields', Field, distinct=['name'])
    S = type('S', (ns['Structure'],), dict(_fields_=rows(v, fields, lambda f: f.row)))
    q = v.str('asked')
    r = S.get_type(q)
    if v.some(fields, lambda f: f.name == q):
        v.prove(v.some(fields, lambda f: And(f.name == q, r == f.type)) if r is not None else False, 'the type of the member of that name')
    else:
        v.prove(r is None, 'no type for another name')


def padding(name):
    return name.startswith('PADDING_')


@contract('C17.field_names', 'data/structure_type.tpl: Structure._field_names_', 'C17')
def field_names(v):
    ns = helpers(v)
    fields = v.seq('fields', Field, distinct=['name'])
    S = type('S', (ns['Structure'],), dict(_fields_=rows(v, fields, lambda f: f.row)))
    v.expect_list(S._field_names_(), [v.each(fields, lambda f: [] if padding(f.name) else [f.name])],
                  'the members that take positional arguments are those that are no padding, in order')
    v.prove(len(list(ns['Structure']._field_names_())) == 0, 'an opaque record has no members')


class Arg:
    def __init__(self, sc):
        self.name = sc.str('name')
        self.value = sc.int('value')
        self.i = sc.idx()


@contract('C17.init', 'data/structure_type.tpl: Structure.__init__', 'C17')
def init(v):
    ns = helpers(v)
    names = v.seq('names', Arg, distinct=['name'])
    n = v.int('given', 0)
    if v.mode == 'proof':
        # the positional arguments: one for each of the first n names
        seq = parts_of(names)[0].seq
        t = seq.fresh_tag('a')
        from pyvc.values import Case
        e = seq.make(t)
        args = IList([Seg(seq, t, [Case([], [e.value])], rng=seq.idx(t) < n.z)])
        pos = (Pack(args),)
    else:
        given = [a for i, a in enumerate(names) if i < n]
        pos = tuple(a.value for a in given)

    class S(ns['Structure']):
        @classmethod
        def _field_names_(cls):
            return rows(v, names, lambda a: a.name)
    key = v.str('keyword')
    val = v.int('keyword value')
    # no keyword, or one whose name is arbitrary
    kw = v.choice('keywords', [False, True])
    taken = v.some(names, lambda a: And(a.name == key, a.i < n)) if kw else False
    if kw and v.symbolic:
        kws = {PACK: Pack(v.dict([(key, val)]))}
    else:
        kws = {key: val} if kw else {}
    obj = S.__new__(S)
    ns['Structure'].__init__(obj, *pos, **kws)
    g = obj.given
    q = v.str('asked')
    r = g.get(q) if isinstance(g, VDict) or not v.symbolic else ([x for k, x in g.items() if bool(k == q)] or [None])[0]
    if kw and bool(q == key):
        v.prove(r == val if r is not None else False, 'a member given by keyword has that value')
    elif v.some(names, lambda a: And(a.name == q, a.i < n)):
        v.prove(v.some(names, lambda a: And(a.name == q, r == a.value)) if r is not None else False,
                'the positional arguments go to the members in order')
    else:
        v.prove(r is None, 'no other member is set')


@contract('C17.opaque', 'data/structure_type.tpl: AsDictMixin.as_dict', 'C17')
def opaque(v):
    ns = helpers(v)
    x = v.int('x')
    v.prove(ns['Structure'].as_dict(x) is x, 'a value that is no record is itself')
    S = type('S', (ns['Structure'],), {})
    obj = S.__new__(S)
    v.prove(len(S.as_dict(obj)) == 0, 'an opaque record has no members')


class Values:
    """members of every kind, as ctypes hands them out"""

    def __init__(self, ns):
        Mix = ns['AsDictMixin']

        class Nested(Mix):
            kind = 'a'

            def __init__(self, n):
                self.n = n

            @classmethod
            def as_dict(cls, self):
                return ('dict', cls.kind, self.n)

        class Other(Nested):
            kind = 'b'

        class Array:
            _length_ = 2

            def __init__(self, items):
                self.items = items

            def __iter__(self):
                return iter(self.items)

            def _vc_parts(self):
                return parts_of(self.items)

        class Records(Array):
            _type_ = Nested

        class Others(Array):
            _type_ = Other

        class Ints(Array):
            _type_ = int

        class Chars(Array):
            _type_ = bytes

            @property
            def value(self):
                return ('chars', self.items[0])

        class RowsOfInts(Array):
            _type_ = Ints

        class RowsOfRecords(Array):
            _type_ = Records

        class RowsOfChars(Array):
            _type_ = Chars

        class Planes(Array):
            _type_ = RowsOfInts

        class Pointer:
            _type_ = Nested

            def __init__(self, n):
                self.n = n

            @property
            def contents(self):
                if self.n is None:
                    raise ValueError('NULL pointer access')
                return ('contents', self.n)

        class Function:
            restype = None
            argtypes = ()

            def __init__(self, n):
                self.n = n
        self.__dict__.update(locals())
        self.kinds = ['int', 'none', 'record', 'other', 'pointer', 'null', 'function']
        self.arrays = ['records', 'others', 'ints']

    def make(self, kind, n):
        return {'int': lambda: n, 'none': lambda: None, 'record': lambda: self.Nested(n), 'other': lambda: self.Other(n),
                'pointer': lambda: self.Pointer(n), 'null': lambda: self.Pointer(None), 'function': lambda: self.Function(n)}[kind]()


class Member:
    def __init__(self, sc, V, reg):
        self.name = sc.str('name')
        self.kind = sc.choice('kind', V.kinds)
        self.n = sc.int('n')
        self.value = V.make(self.kind, self.n)
        self.row = (self.name, None)
        reg.append(self)


def same_name(a, b):
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return a.same(b)
    return a is b or isinstance(a, str) and isinstance(b, str) and a == b


def attr_of(reg):
    def get(self, n):
        for m in reg[::-1]:
            if same_name(m.name, n):
                return m.value
        raise AttributeError(n)
    return get


def wanted(v, V, m, got, name):
    if m.kind in ('int',):
        return v.equal(got, m.n, name)
    if m.kind in ('none', 'null'):
        return v.prove(got is None, name)
    if m.kind in ('record', 'other'):
        return v.equal(got, ('dict', 'a' if m.kind == 'record' else 'b', m.n), name)
    if m.kind == 'pointer':
        return v.equal(got, ('contents', m.n), name)
    # (the stand-in classes are made anew on every path)
    v.prove(type(got).__name__ == 'Function' and got.n == m.n, name)


@contract('C17.as_dict', 'data/structure_type.tpl: AsDictMixin.as_dict', 'C17')
def as_dict(v):
    ns = helpers(v)
    V = Values(ns)
    reg = []
    fields = v.seq('fields', lambda sc: Member(sc, V, reg), distinct=['name'])
    S = type('S', (ns['Structure'],), dict(_fields_=rows(v, fields, lambda f: f.row), _vc_getattr=attr_of(reg), __getattr__=attr_of(reg)))
    obj = S.__new__(S)
    d = S.as_dict(obj)
    items = d.entries if v.symbolic else list(d.items())

    def same(a, b):
        v.equal(a[0], b.name, 'the keys are the names of the members that are no padding, in order')
        wanted(v, V, b, a[1], 'every member is converted as its kind says')
    v.expect_list(items, [v.each(fields, lambda f: [] if padding(f.name) else [f])],
                  'the keys are the names of the members that are no padding, in order', eq=same)


@contract('C17.as_dict_rows', 'data/structure_type.tpl: AsDictMixin.as_dict', 'C17')
def as_dict_rows(v):
    ns = helpers(v)
    V = Values(ns)
    kind = v.choice('kind', ['ints', 'records', 'chars', 'planes'])
    n = v.seq('rows', lambda sc: sc.int('n'))
    make, want = {
        'ints': (lambda i: V.Ints([i, i + 1]), lambda i: [i, i + 1]),
        'records': (lambda i: V.Records([V.Nested(i), V.Nested(i + 1)]), lambda i: [('dict', 'a', i), ('dict', 'a', i + 1)]),
        'chars': (lambda i: V.Chars([i]), lambda i: ('chars', i)),
        'planes': (lambda i: V.RowsOfInts([V.Ints([i]), V.Ints([i + 1, 7])]), lambda i: [[i], [i + 1, 7]])}[kind]
    value = {'ints': V.RowsOfInts, 'records': V.RowsOfRecords, 'chars': V.RowsOfChars, 'planes': V.Planes}[kind](rows(v, n, make))
    S = type('S', (ns['Structure'],), dict(_fields_=[('before', None), ('items', None), ('after', None)], before=1, after=2))
    obj = S.__new__(S)
    obj.items = value
    d = S.as_dict(obj)
    v.prove(len(d) == 3 and d['before'] == 1 and d['after'] == 2, 'the other members')
    v.prove(isinstance(d['items'], (list, IList)), 'an array of arrays becomes a list')
    v.expect_list(d['items'], [v.each(n, lambda i: [want(i)])], 'an array of arrays becomes the list of its rows, converted in the same way')


@contract('C17.as_dict_array', 'data/structure_type.tpl: AsDictMixin.as_dict', 'C17')
def as_dict_array(v):
    ns = helpers(v)
    V = Values(ns)
    kind = v.choice('kind', V.arrays)
    n = v.seq('items', lambda sc: sc.int('n'))
    if kind == 'ints':
        value = V.Ints(n)
        want = v.each(n, lambda i: [i])
    else:
        T = V.Nested if kind == 'records' else V.Other
        value = (V.Records if kind == 'records' else V.Others)(rows(v, n, T))
        want = v.each(n, lambda i: [('dict', T.kind, i)])
    S = type('S', (ns['Structure'],), dict(_fields_=[('before', None), ('items', None), ('after', None)], before=1, after=2))
    obj = S.__new__(S)
    obj.items = value
    d = S.as_dict(obj)
    v.prove(len(d) == 3 and d['before'] == 1 and d['after'] == 2, 'the other members')
    v.prove(isinstance(d['items'], (list, IList)), 'an array becomes a list')
    v.expect_list(d['items'], [want], 'an array becomes the list of its items, converted when they are records')


class Callback:
    """what a user gives for a member (true or false in a condition)"""
    _vc_state = True

    def __init__(self, n, truth):
        self.n, self.truth = n, truth

    def __bool__(self):
        return bool(self.truth)

    def __call__(self, *a):
        return ('called', self.n, a)


class Bound:
    """the mapping given to bind: the members it names, and perhaps other names"""
    _vc_state = True

    def __init__(self, v, fields, reg, more):
        self.v, self.fields, self.more = v, fields, more
        self.gone = v.list()

        def find(n):
            for m in reg[::-1]:
                if same_name(m.name, n):
                    return m
            raise AssertionError('a name that is no member is looked up')
        self.find = find

    def __contains__(self, n):
        m = self.find(n)
        return bool(m.bound) and not self.v.member(n, self.gone)

    def __getitem__(self, n):
        if n not in self:
            raise KeyError(n)
        return self.find(n).given

    def get(self, n, d=None):
        return self[n] if n in self else d

    def pop(self, n, *d):
        if n not in self:
            if d:
                return d[0]
            raise KeyError(n)
        r = self[n]
        del self[n]
        return r

    def __delitem__(self, n):
        if n not in self:
            raise KeyError(n)
        self.gone.append(n)

    def keys(self):
        return 'names'

    def left(self):
        if bool(self.more):
            return True
        v = self.v
        if v.mode == 'proof':
            # either: some name is left (this one), or not (every outcome is looked at)
            from pyvc.core import ctx, PathDone
            if ctx().choose(2) == 1:
                return False
            m = v.elem(self.fields)
            v.assume(m.bound)
            if v.member(m.name, self.gone):
                raise PathDone
            return True
        return any(bool(m.bound) and not v.member(m.name, self.gone) for m in self.fields)

    def __len__(self):
        return 1 if self.left() else 0

    def __bool__(self):
        return self.left()


class Made:
    """an object a ctypes type makes: type_() or type_(x)"""

    def __init__(self, type_, *x):
        self.type, self.x = type_, x


class Plain:
    """the type of a member that is no function"""

    def __init__(self, n):
        self.n = n

    def __call__(self, *x):
        return Made(self, *x)


class Number:
    """c_int and so on"""

    def __init__(self, n):
        self.n = n

    def __call__(self):
        return self

    @property
    def value(self):
        return self.n


class FnType(Plain):
    """CFUNCTYPE(restype, ..)"""
    restype = None

    def __call__(self, *x):
        r = Made(self, *x)
        if x and x[0] == 0 if x and isinstance(x[0], int) else False:
            r.restype = self.result
        return r


class BindMember:
    def __init__(self, sc, reg):
        self.name = sc.str('name')
        self.n = sc.int('n')
        self.kind = sc.choice('kind', ['plain', 'void', 'number'])
        self.type = Plain(self.n) if self.kind == 'plain' else FnType(self.n)
        if self.kind != 'plain':
            self.type.result = None if self.kind == 'void' else Number(sc.int('default'))
        self.bound = sc.bool('bound')
        self.none = sc.choice('value', [False, True])
        self.given = None if self.none else Callback(self.n, sc.bool('truth'))
        self.row = (self.name, self.type)
        reg.append(self)


@contract('C17.bind', 'data/structure_type.tpl: Structure.bind', 'C17')
def bind(v):
    ns = helpers(v)
    reg = []
    fields = v.seq('fields', lambda sc: BindMember(sc, reg), distinct=['name'])
    made = []

    class S:
        __name__ = 'S'
        _fields_ = rows(v, fields, lambda m: m.row)
        _vc_star = True

        def __call__(self, **kw):
            made.append(kw[PACK].v if PACK in kw else kw)
            return self
    cls = S()
    more = v.bool('other names')
    r = Raised(ValueError, ns['Structure'].bind.__func__, cls, Bound(v, fields, reg, more))
    if bool(more):
        v.prove(r.exc is not None, 'an unknown name is rejected')
        return
    v.prove(r.exc is None, 'known names are accepted')
    v.prove(r.value is cls and len(made) == 1, 'one structure is made')
    kw = made[0]

    def same(a, m):
        v.equal(a[0], m.name, 'every member is given, in order')
        x = a[1]
        if not bool(m.bound):
            ok = isinstance(x, Made)
            v.prove(ok, 'a member not named is made by its type')
            v.equal(x.type.n, m.n, 'a member not named is made by its type')
            if m.kind == 'plain':
                v.prove(not x.x, 'a member not named, no function, is zero')
            else:
                v.prove(len(x.x) == 1 and callable(x.x[0]), 'a function not named gets a callback')
                res = x.x[0](1, 2)
                v.prove(res is None if m.kind == 'void' else res == m.type.result.n, 'a function not named returns zero')
        elif m.kind == 'plain':
            v.prove(x is None if m.none else isinstance(x, Callback) and x.n == m.n, 'a value given for a member is passed')
        else:
            v.prove(isinstance(x, Made), 'a callback is made by the type of the member')
            v.equal(x.type.n, m.n, 'a callback is made by the type of the member')
            if m.none:
                v.prove(not x.x, 'None for a function is the null pointer')
                return
            v.prove(len(x.x) == 1 and callable(x.x[0]), 'a callback is installed')
            cb = x.x[0]
            for args in ((), (4,), (4, 5)):
                v.equal(cb(*args), ('called', m.n, args), 'calling the member calls the given callback and gives its result')
    v.expect_list(kw.entries if isinstance(kw, VDict) else list(kw.items()), [v.each(fields, lambda m: [m])],
                  'every member is given, in order', eq=same)


class Text:
    """a Python string, or bytes: the text and how it is encoded (None: a string)"""

    def __init__(self, n, enc=None, errors=None):
        self.n, self.enc, self.errors = n, enc, errors

    def __getattr__(self, name):
        if name == 'encode' and self.enc is None:
            return lambda encoding='utf-8', errors='strict': Text(self.n, encoding)
        if name == 'decode' and self.enc is not None:
            def decode(encoding='utf-8', errors='strict'):
                return Text(self.n, None, errors) if encoding is self.enc or encoding == self.enc else Text(-1)
            return decode
        raise AttributeError(name)


class CChars:
    """ctypes.c_char_p: the bytes it points to"""

    def __init__(self, x=None):
        if x is not None and (not isinstance(x, Text) or x.enc is None):
            raise TypeError('bytes or integer address expected')
        self.value = x


class CtStrings:
    c_char_p = CChars
    c_char = 'c_char'

    @staticmethod
    def cast(x, t):
        if t is CChars:
            r = CChars()
            r.value = x.value if isinstance(x, CChars) else x.to.value
            return r
        return Cast(x, t)


class Cast:
    """a pointer to the same bytes"""

    def __init__(self, to, type_):
        self.to, self.type = to, type_


@contract('C17.strings', 'data/string_cast.tpl: string_cast, char_pointer_cast', 'C17')
def strings(v):
    ns = template(v, 'string_cast', ctypes=CtStrings, __POINTER_TYPE__=lambda t: ('POINTER', t))
    s = Text(v.int('s'))
    how = v.choice('encoding', ['default', 'given', 'bytes', 'bytes, encoding'])
    enc = v.str('encoding name')
    if how == 'default':
        p = ns['char_pointer_cast'](s)
        r = ns['string_cast'](p)
    elif how == 'given':
        p = ns['char_pointer_cast'](s, enc)
        r = ns['string_cast'](p, encoding=enc, errors='strict')
    elif how == 'bytes':
        s = Text(s.n, enc)
        p = ns['char_pointer_cast'](s, encoding=None)
        r = ns['string_cast'](p, encoding=None)
    else:
        s = Text(s.n, enc)
        p = ns['char_pointer_cast'](s)
        r = ns['string_cast'](p, None)
    v.prove(isinstance(p, Cast) and p.type == ('POINTER', 'c_char'), 'the pointer is one to characters')
    v.prove(isinstance(r, Text) and (r.enc is None) == (s.enc is None), 'text comes back as text and bytes as bytes')
    v.equal(r.n, s.n, 'the text that went in comes back')
    null = CtStrings.cast(CChars(), ('POINTER', 'c_char'))
    v.prove(ns['string_cast'](null) is None, 'a null pointer has no text')
