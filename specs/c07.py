"""C07: initialised variables."""
from pyvc.spec import contract
from pyvc.rope import AllBut
from clang.cindex import CursorKind, TypeKind, TokenKind
from specs.common import generator, N, A, chatty, placed
from specs.cursors import Cur, Typ, parser, loc, Loc, File
from specs.types import known_types

TK, CK = TypeKind, CursorKind
DEC, OCT, HEX, BIN = (frozenset('0123456789'), frozenset('01234567'), frozenset('0123456789abcdefABCDEF'), frozenset('01'))
INT_SUFFIX = ('', 'u', 'U', 'l', 'L', 'll', 'LL', 'ul', 'uL', 'Ul', 'UL', 'ull', 'uLL', 'Ull', 'ULL', 'lu', 'lU', 'Lu', 'LU',
              'llu', 'llU', 'LLu', 'LLU')
FLOAT_SUFFIX = ('', 'f', 'F', 'l', 'L')
PLAIN = AllBut('"', '\\', '\n', '\r', '\0')


def int_literal(v, n='', suffixes=INT_SUFFIX):
    """the text of an integer literal, and its value"""
    form = v.choice(n + 'notation', ['decimal', 'zero', 'octal', '0x', '0X', '0b', '0B'])
    if form == 'decimal':
        t = v.str(n + 'first', 'char', charset=DEC - {'0'}) + v.str(n + 'digits', 'run', charset=DEC)
        value = v.numeral(10, t)
    elif form == 'zero':
        t, value = '0', 0
    elif form == 'octal':
        d = v.str(n + 'digits', 'run1', charset=OCT)
        t, value = '0' + d, v.numeral(8, d)
    elif form in ('0x', '0X'):
        d = v.str(n + 'digits', 'run1', charset=HEX)
        t, value = form + d, v.numeral(16, d)
    else:
        d = v.str(n + 'digits', 'run1', charset=BIN)
        t, value = form + d, v.numeral(2, d)
    return t + v.choice(n + 'suffix', suffixes), value


def float_literal(v, n='', suffixes=FLOAT_SUFFIX):
    """the text of a floating literal, and its value"""
    dig = lambda m: v.str(n + m, 'run1', charset=DEC)
    form = v.choice(n + 'notation', ['1.5', '.5', '1.', '1', '0x1.8', '0x.8', '0x1.', '0x1'])
    if form.startswith('0x'):
        hx = lambda m: v.str(n + m, 'run1', charset=HEX)
        x, e = v.choice(n + 'case', ['xp', 'XP'])
        t = '0' + x + (hx('whole') if form[2] == '1' else '') + ('.' if '.' in form else '') + (hx('part') if '8' in form else '')
        t = t + e + v.choice(n + 'sign', ['', '+', '-']) + dig('power')
        value = v.real(t, 'hex')
    else:
        t = (dig('whole') if form[0] == '1' else '') + ('.' if '.' in form else '') + (dig('part') if '5' in form else '')
        e = v.choice(n + 'exponent', ['', 'e', 'E'] if '.' in form else ['e', 'E'])
        if e:
            t = t + e + v.choice(n + 'sign', ['', '+', '-']) + dig('power')
        value = v.real(t)
    return t + v.choice(n + 'suffix', suffixes), value


class Extent:
    def __contains__(self, place):
        return place.inside


class Tok:
    """a token"""

    def __init__(self, kind, spelling, cursor, inside=True):
        self.kind, self.spelling, self.cursor = kind, spelling, cursor
        self.location = Loc(None, 1)
        self.location.inside = inside


def expression(v, kind, tokens=(), spelling='', level=None, follow=True, **kw):
    """a cursor of an expression; its tokens; what may follow them: a token that libclang lists though it is not part of
    it (inside or outside of the extent of the expression), or a comment"""
    c = Cur(v, kind, spelling=spelling, extent=Extent(), usr='', **kw)
    c.semantic_parent = level and Cur(v, CK.VAR_DECL, displayname='x', semantic_parent=None)
    c.tokens = [Tok(k, s, o or c) for k, s, o in tokens]
    after = v.choice('after', [None, 'punctuation', 'comment', 'outside'] if follow else [None])
    if after == 'punctuation':
        c.tokens.append(Tok(TokenKind.PUNCTUATION, v.choice('mark', [';', ',', '}']), Cur(v, v.choice('owner', [CK.INVALID_FILE, CK.INIT_LIST_EXPR]), '')))
    elif after == 'comment':
        c.tokens.append(Tok(TokenKind.COMMENT, v.str('remark', 'text'), c))
    elif after == 'outside':
        c.tokens.append(Tok(v.choice('kind after', [TokenKind.KEYWORD, TokenKind.IDENTIFIER, TokenKind.PUNCTUATION]), v.str('word', 'line'),
                            Cur(v, CK.VAR_DECL, ''), False))
    return c


@contract('C07.integer', 'cursorhandler.CursorHandler._literal_handling (INTEGER_LITERAL)', ['C07'], modes=('proof', 'bounded', 'concrete'))
def integer(v):
    p = parser(v, denote=False)
    text, value = int_literal(v)
    c = expression(v, CK.INTEGER_LITERAL, [(TokenKind.LITERAL, text, None)], type=Typ(v, TK.INT), level=v.choice('level', [None, True]))
    v.equal(p.parse_cursor(c), value, 'the literal is read as its C value')


@contract('C07.floating', 'cursorhandler.CursorHandler._literal_handling (FLOATING_LITERAL)', ['C07'], modes=('proof', 'bounded', 'concrete'))
def floating(v):
    p = parser(v, denote=False)
    text, value = float_literal(v)
    c = expression(v, CK.FLOATING_LITERAL, [(TokenKind.LITERAL, text, None)], type=Typ(v, TK.DOUBLE))
    v.equal(p.parse_cursor(c), value, 'the literal is read as its C value')


@contract('C07.negative', 'cursorhandler.CursorHandler._operator_handling, _literal_handling (UNARY_OPERATOR)', ['C07'],
          modes=('proof', 'bounded', 'concrete'))
def negative(v):
    p = parser(v, denote=False)
    whole = v.choice('type', ['integer', 'floating'])
    if whole == 'integer':
        text, value = int_literal(v, suffixes=('', 'l', 'L', 'll', 'LL'))
        kinds = [TK.INT, TK.LONG, TK.LONGLONG]
    else:
        text, value = float_literal(v, suffixes=('', 'f', 'L'))
        kinds = [TK.DOUBLE, TK.FLOAT, TK.LONGDOUBLE]
    lit = Cur(v, CK.INTEGER_LITERAL if whole == 'integer' else CK.FLOATING_LITERAL, '', semantic_parent=None)
    c = expression(v, CK.UNARY_OPERATOR, [(TokenKind.PUNCTUATION, '-', None), (TokenKind.LITERAL, text, lit)],
                   type=Typ(v, v.choice('kind', kinds)), follow=whole == 'integer')
    v.equal(p.parse_cursor(c), -value, 'a negated literal is read as its C value')


@contract('C07.string', 'cursorhandler.CursorHandler._literal_handling, _clean_string_literal (STRING_LITERAL)', ['C07'],
          modes=('proof', 'bounded', 'concrete'))
def string(v):
    p = parser(v, denote=False)
    body = v.str('body', 'run', charset=PLAIN)
    spelled = v.choice('prefix', ['', 'u8', 'L', 'u', 'U']) + '"' + body + '"'
    if v.choice('pieces', ['one', 'several']) == 'one':
        tokens = [(TokenKind.LITERAL, spelled, None)]
    else:
        # adjacent literals are one string
        tokens = [(TokenKind.LITERAL, '"' + v.str('a', 'run', charset=PLAIN) + '"', None),
                  (TokenKind.LITERAL, '"' + v.str('b', 'run', charset=PLAIN) + '"', None)]
    c = expression(v, CK.STRING_LITERAL, tokens, spelling=spelled, type=Typ(v, TK.CONSTANTARRAY))
    v.equal(p.parse_cursor(c), body, 'a string literal is read as its characters')


INTS = [TK.SCHAR, TK.UCHAR, TK.SHORT, TK.USHORT, TK.INT, TK.UINT, TK.LONG, TK.ULONG, TK.LONGLONG, TK.ULONGLONG]
FLOATS = [TK.FLOAT, TK.DOUBLE, TK.LONGDOUBLE]


def declared(v, p, var):
    """the variable may have been declared, without a value, before; -> what was registered then"""
    if not v.choice('declared before', [False, True]):
        return None
    w = v.sub('fwd')
    p.parse_cursor(Cur(w, CK.VAR_DECL, var.spelling, type=var.type, location=loc(w), linkage=var.linkage, definition=None))
    return p.get_registered(var.spelling)


def initialiser(sc, kind, value, casts=0):
    """an initialising expression below implicit casts, denoted by its value (C07.integer, floating, negative, string)"""
    c = Cur(sc, kind, '', desc=value, semantic_parent=None)
    for i in range(casts):
        c = Cur(sc.sub('cast%d' % i), CK.UNEXPOSED_EXPR, '', semantic_parent=None, children=[c])
    return c


@contract('C07.scalar', 'cursorhandler.CursorHandler.VAR_DECL, _VAR_DECL_type, _VAR_DECL_value, _get_var_decl_init_value, '
          '_get_var_decl_init_value_single (integer and floating variables)', ['C07', 'C13'])
def scalar(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    names = {}
    for i, k in enumerate(INTS + FLOATS):
        names[k] = 'c_type%d' % i
        p.ctypes_typename[k] = names[k]
    kind = v.choice('kind', INTS + FLOATS)
    ctype = Typ(v, kind)
    linkage = v.choice('linkage', [0, 1])
    from clang.cindex import LinkageKind
    var = Cur(v, CK.VAR_DECL, type=v.choice('type', [True, False]) and ctype or Typ(v.sub('alias'), TK.TYPEDEF, canonical=ctype), location=loc(v),
              linkage=[LinkageKind.EXTERNAL, LinkageKind.INTERNAL][linkage])
    init = v.choice('init', [None, CK.INTEGER_LITERAL, CK.FLOATING_LITERAL, CK.UNARY_OPERATOR])
    if init is None:
        value = None
        var.children = []
    else:
        value = v.int('value') if init == CK.INTEGER_LITERAL else v.float('real')
        var.children = [initialiser(v.sub('e'), init, value, v.choice('casts', [0, 1, 2]))]
    if v.choice('typedef', [False, True]):
        var.children = [Cur(v.sub('t'), CK.TYPE_REF, desc=True)] + var.children
    before = declared(v, p, var)
    v.prove(p.parse_cursor(var) is not False, 'handled')
    v.prove(p.is_registered(var.spelling), 'registered under its name')
    obj = p.get_registered(var.spelling)
    v.prove(before is None or obj is before, 'the declared and the defined variable are the same entity')
    v.prove(type(obj) is td.Variable, 'a variable')
    v.equal(obj.name, var.spelling, 'named like the variable')
    if init is None:
        v.prove(obj.init is None, 'no initial value')
    else:
        v.equal(obj.init, value, 'the initial value is that of the literal')
    v.prove(type(obj.typ) is td.FundamentalType, 'of its type')
    v.equal(obj.typ.name, names[kind], 'of its type')
    v.equal(obj.extern, linkage == 0, 'its linkage')


@contract('C07.text', 'cursorhandler.CursorHandler.VAR_DECL, _VAR_DECL_type, _VAR_DECL_value, _get_var_decl_init_value, '
          '_get_var_decl_init_value_single (character pointers and arrays)', ['C07'])
def text(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    body = v.str('body', 'text')
    char = td.FundamentalType('c_char', 0, 0)
    lit = initialiser(v.sub('e'), CK.STRING_LITERAL, body)
    shape = v.choice('shape', ['pointer', 'array', 'array of unknown size'])
    if shape == 'pointer':
        desc = td.PointerType(char, 8, 8)
        elem = Typ(v.sub('elem'), TK.CHAR_S)
        ctype = Typ(v, TK.POINTER, pointee=elem, desc=desc)
        children = [initialiser(v.sub('e'), CK.STRING_LITERAL, body, v.choice('casts', [1, 2]))]
    else:
        desc = td.ArrayType(char, v.int('length', 0))
        ctype = Typ(v, TK.CONSTANTARRAY, desc=desc)
        children = [lit] if shape != 'array' else [initialiser(v.sub('n'), CK.INTEGER_LITERAL, v.int('declared', 1)), lit]
    from clang.cindex import LinkageKind
    var = Cur(v, CK.VAR_DECL, type=ctype, location=loc(v), linkage=LinkageKind.EXTERNAL, children=children)
    before = declared(v, p, var)
    p.parse_cursor(var)
    obj = p.get_registered(var.spelling)
    v.prove(before is None or obj is before, 'the declared and the defined variable are the same entity')
    v.prove(type(obj) is td.Variable, 'a variable')
    v.equal(obj.name, var.spelling, 'named like the variable')
    v.equal(obj.init, body, 'the initial value is the string')
    v.prove(obj.typ is desc, 'of its type')


@contract('C07.list', 'cursorhandler.CursorHandler.VAR_DECL, _VAR_DECL_value, _get_var_decl_init_value, _get_var_decl_init_value_single, '
          'INIT_LIST_EXPR, UNEXPOSED_EXPR (flat arrays)', ['C07'])
def array(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v)
    real = v.choice('elements', ['integers', 'floats']) == 'floats'

    def element(sc):
        k = sc.choice('kind', [CK.INTEGER_LITERAL, CK.UNARY_OPERATOR])
        return initialiser(sc, k, sc.float('real') if real else sc.int('value'), sc.choice('casts', [0, 1]))
    items = v.seq('items', element, nonempty=True)
    desc = td.ArrayType(td.FundamentalType('c_double' if real else 'c_int32', 0, 0), v.int('length', 0))
    ctype = Typ(v, v.choice('type', [TK.CONSTANTARRAY, TK.INCOMPLETEARRAY]), desc=desc)
    lst = Cur(v.sub('list'), CK.INIT_LIST_EXPR, '', semantic_parent=None, children=items)
    children = [lst]
    if v.choice('size', [False, True]):
        children = [initialiser(v.sub('n'), CK.INTEGER_LITERAL, v.int('declared', 1)), lst]
    from clang.cindex import LinkageKind
    var = Cur(v, CK.VAR_DECL, type=ctype, location=loc(v), linkage=LinkageKind.EXTERNAL, children=children)
    before = declared(v, p, var)
    p.parse_cursor(var)
    obj = p.get_registered(var.spelling)
    v.prove(before is None or obj is before, 'the declared and the defined variable are the same entity')
    v.prove(type(obj) is td.Variable, 'a variable')
    v.prove(obj.typ is desc, 'of its type')
    v.expect_list(obj.init, [v.each(items, lambda c: [(c.children[0] if c.desc is None else c).desc])], 'the list of the values, in order')


INTNAMES = ('c_byte', 'c_ubyte', 'c_int16', 'c_uint16', 'c_int32', 'c_uint32', 'c_int64', 'c_uint64', 'c_long', 'c_ulong')
FLOATNAMES = ('c_float', 'c_double', 'c_longdouble')


@contract('C07.Variable', 'codegenerator.Generator.Variable', ['C07', 'C13', 'C19'], modes=('proof', 'bounded', 'concrete'))
def variable(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = known_types(generator(v))
    shape = v.choice('shape', ['scalar', 'nothing', 'pointer', 'text', 'list'])
    g.needed = v.list()
    g._generate = lambda item, *a: g.needed.append(item.expr)
    if shape in ('scalar', 'nothing', 'list'):
        # (an unsigned char without a value is a character: no claim)
        names = INTNAMES + FLOATNAMES if shape != 'nothing' else INTNAMES[:1] + INTNAMES[2:] + FLOATNAMES
        t = td.FundamentalType(v.choice('type', names), 0, 0)
        number = v.choice('value', ['integer', 'real']) if t.name in FLOATNAMES else 'integer'
    else:
        t = td.FundamentalType('c_char', 0, 0)
    if shape == 'scalar':
        init = want = v.int('number') if number == 'integer' else v.float('real')
    elif shape == 'nothing':
        init, want = None, 0
    elif shape in ('pointer', 'text'):
        init = want = v.str('body', 'text')
        t = td.PointerType(t, 8, 8) if shape == 'pointer' else td.ArrayType(t, v.int('length', 1))
    else:
        items = v.seq('items', lambda sc: sc.int('number') if number == 'integer' else sc.float('real'))
        init, want = items, ('list', [v.each(items, lambda x: [x])])
        t = td.ArrayType(t, v.int('length', 1))
    t.expr = v.str('expr', 'expr')
    tp = td.Variable(v.str('name'), t, init, v.choice('extern', [True, False]))
    tp.comment = None
    chatty(v, g, tp)
    g.Variable(tp)
    v.expect_program(v.program(g), [('=', N(tp.name), want)], 'the variable has its C value')
    v.expect_list(g.names, [tp.name], 'exported')
    v.prove(v.member(t.expr, g.needed), 'its type is generated')
