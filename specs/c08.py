"""C08: macros.  The real handler of a #define and the real generator run one after the other: what is read back is
the program."""
from pyvc.spec import contract
from clang.cindex import CursorKind, TokenKind, TypeKind
from specs.common import generator, N, chatty
from specs.cursors import Cur, Typ, parser, Loc, File
from specs.c07 import int_literal, float_literal, Tok, Extent, PLAIN, DEC

CK, TK = CursorKind, TokenKind
P, L, I = TK.PUNCTUATION, TK.LITERAL, TK.IDENTIFIER


class Place:
    def __init__(self, offset):
        self.offset = offset


class Span:
    def __init__(self, start, end):
        self.start, self.end = Place(start), Place(end)


def define(v, tokens=(), call=False, name=None, prefix='', kinds=(TK.KEYWORD, I, P), after=(None, 'comment', 'outside')):
    """the cursor of a #define: its tokens, all of them its own.  What libclang may list after them: a comment, or a token
    of the next line that is not in the extent"""
    if name is None:
        name = v.str(prefix + 'name')
        # (these have no value)
        v.assume(name != 'NULL')
        v.assume(name != '__thread')
    c = Cur(v, CK.MACRO_DEFINITION, spelling=name, extent=Extent(), usr='', semantic_parent=None, type=Typ(v, TypeKind.INVALID))
    c.location = Loc(File(v.str(prefix + 'file', 'line')), v.int(prefix + 'line', 1))
    at = v.int(prefix + 'offset', 0)
    first = Tok(I, name, c)
    first.extent = Span(at, at + v.int(prefix + 'length', 1))
    c.tokens = [first]
    for k, s in tokens:
        c.tokens.append(Tok(k, s, c))
    if tokens:
        c.tokens[1].extent = Span(first.extent.end.offset + (0 if call else v.int(prefix + 'space', 1)), v.int(prefix + 'end', 0))
    after = v.choice('after', list(after))
    if after is not None:
        t = Tok(TK.COMMENT, v.str('remark', 'line'), c) if after == 'comment' else Tok(v.choice('kind after', kinds), v.str('word', 'line'), c, False)
        t.extent = Span(v.int('from', 0), v.int('to', 0))
        c.tokens.append(t)
    return c


def translate(v, p, c):
    """handler and generator"""
    td = v.mod('ctypeslib.codegen.typedesc')
    v.prove(p.parse_cursor(c) is True, 'handled')
    v.prove(p.is_registered(c.spelling), 'registered under its name')
    m = p.get_registered(c.spelling)
    v.prove(type(m) is td.Macro, 'a macro')
    v.equal(m.name, c.spelling, 'named like the macro')
    g = generator(v)
    v.prove(m.location is not None, 'it has a location')
    g.Macro(m)
    return g


def redefined(v, p, name):
    """there may have been another #define of the name"""
    td = v.mod('ctypeslib.codegen.typedesc')
    before = v.choice('before', [None, 'empty', 'text', 'function'])
    if before is not None:
        p.all[name] = td.Macro(name, '(x)' if before == 'function' else None, True if before == 'empty' else v.str('old body', 'line'))


def defined(v, g, name, value):
    v.expect_program(v.program(g), [('=', N(name), value)], 'the module has the C value')
    v.expect_list(g.names, [name], 'exported')


def absent(v, g):
    v.expect_program(v.program(g), [], 'only comments are written')
    v.expect_list(g.names, [], 'nothing is exported')


@contract('C08.integer', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _clean_string_literal, '
          'codegenerator.Generator.Macro (integer literals)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def integer(v):
    text, value = int_literal(v)
    c = define(v, [(L, text)])
    g = translate(v, parser(v, denote=False), c)
    defined(v, g, c.spelling, value)


@contract('C08.floating', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _clean_string_literal, '
          'codegenerator.Generator.Macro, util.from_c_float_literal (floating literals)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def floating(v):
    text, value = float_literal(v)
    c = define(v, [(L, text)], after=(None, 'comment'))
    g = translate(v, parser(v, denote=False), c)
    defined(v, g, c.spelling, value)


@contract('C08.string', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _clean_string_literal, '
          'codegenerator.Generator.Macro, util.token_is_string (string literals)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def string(v):
    body = v.str('body', 'run', charset=PLAIN)
    c = define(v, [(L, v.choice('prefix', ['', 'u8', 'L', 'u', 'U']) + '"' + body + '"')])
    p = parser(v, denote=False)
    redefined(v, p, c.spelling)
    g = translate(v, p, c)
    defined(v, g, c.spelling, body)


@contract('C08.negative', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _clean_string_literal, '
          'codegenerator.Generator.Macro, util.from_c_float_literal (negated literals)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def negative(v):
    if v.choice('type', ['integer', 'floating']) == 'integer':
        text, value = int_literal(v, suffixes=('', 'l', 'LL'))
    else:
        text, value = float_literal(v, suffixes=('', 'f', 'L'))
    c = define(v, [(P, '-'), (L, text)], kinds=[P])
    g = translate(v, parser(v, denote=False), c)
    defined(v, g, c.spelling, -value)


@contract('C08.parentheses', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro (numbers in parentheses)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def parentheses(v):
    if v.choice('type', ['integer', 'floating']) == 'integer':
        text, value = int_literal(v, suffixes=('', 'u', 'LL'))
    else:
        text, value = float_literal(v, suffixes=('', 'f'))
    minus = v.choice('minus', [False, True])
    n = v.choice('nesting', [1, 2])
    c = define(v, [(P, '(')] * n + ([(P, '-')] if minus else []) + [(L, text)] + [(P, ')')] * n, after=(None, 'comment'))
    g = translate(v, parser(v, denote=False), c)
    defined(v, g, c.spelling, -value if minus else value)


KINDS = (I, L, P, TK.KEYWORD, TK.COMMENT)


def token(c, kinds=KINDS, texts=None, inside=(True, False)):
    """an arbitrary token of a body, a comment, or a token listed by mistake (not in the extent)"""
    def make(sc):
        k = sc.choice('kind', kinds)
        return Tok(k, sc.str('word') if k == I else (sc.str('text', 'line') if texts is None else sc.choice('text', texts)), c,
                   texts is not None or sc.choice('inside', list(inside)))
    return make


@contract('C08.function', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, '
          'codegenerator.Generator.Macro (function-like macros)', ['C08'])
def function(v):
    p = parser(v, denote=False)
    # (a literal is read as a text of one line)
    p.cursorkind_handler._clean_string_literal = lambda cursor, value: v.str('literal', 'line')
    c = define(v, [(P, '(')], call=True, after=(None,))
    params = v.seq('params', token(c, (I, P), [',', '...']))
    body = v.seq('body', token(c))
    c.tokens = v.list(*c.tokens[:2]) + params + v.list(Tok(P, ')', c)) + body
    g = translate(v, p, c)
    absent(v, g)
    v.prove(bool(p.get_registered(c.spelling).args), 'it has arguments')


def hidden(v, whats, firsts):
    """a body with an identifier that means nothing in Python, anywhere"""
    td = v.mod('ctypeslib.codegen.typedesc')
    p = parser(v, denote=False)
    # (a literal is read as a text of one line)
    p.cursorkind_handler._clean_string_literal = lambda cursor, value: v.str('literal', 'line')
    word = v.str('identifier')
    c = define(v, [(I, word)], after=(None,))
    what = v.choice('the identifier is', whats)
    if what == 'a keyword':
        c.tokens[1].kind = TK.KEYWORD
    elif what != 'unknown':
        lost = td.UndefinedIdentifier(v.str('lost'))
        p.all[word] = {'a declaration': lambda: td.Typedef(word, None), 'a function-like macro': lambda: td.Macro(word, '(x)', 'x'),
                       'a macro of one': lambda: td.Macro(word, None, lost), 'a macro with one': lambda: td.Macro(word, None, v.list('-', lost))}[what]()
    v.assume(word != c.spelling)
    kind = v.choice('first', firsts)
    first = v.list()
    if kind is not None:
        t = Tok(kind, v.str('word') if kind == I else v.str('text', 'line'), c)
        t.extent = c.tokens[1].extent
        first.append(t)
    before, after = (v.seq('before', token(c, inside=[True])) if kind is not None else v.list()), v.seq('after', token(c, inside=[True]))
    c.tokens = v.list(c.tokens[0]) + first + before + v.list(c.tokens[1]) + after
    g = translate(v, p, c)
    absent(v, g)


ANY = [None, I, L, P, TK.KEYWORD]


@contract('C08.unknown', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro, util.contains_undefined_identifier (unknown identifiers)', ['C08'], timeout=500)
def unknown(v):
    hidden(v, ['unknown'], ANY)


@contract('C08.keyword', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro, util.contains_undefined_identifier (keywords)', ['C08'], timeout=500)
def keyword(v):
    hidden(v, ['a keyword'], [None, L, P])


@contract('C08.declared', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro, util.contains_undefined_identifier (names of declarations)', ['C08'], timeout=500)
def declared(v):
    hidden(v, ['a declaration'], [None, P])


@contract('C08.arguments', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro, util.contains_undefined_identifier (macros with arguments)', ['C08'], timeout=500)
def arguments(v):
    hidden(v, ['a function-like macro'], [None, P])


@contract('C08.nested', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, _is_function_like_macro, _is_one_group, '
          'codegenerator.Generator.Macro, util.contains_undefined_identifier (macros with unknown identifiers)', ['C08'], timeout=500)
def nested(v):
    hidden(v, ['a macro of one', 'a macro with one'], [None, P])


@contract('C08.empty', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, codegenerator.Generator.Macro (no value)', ['C08'],
          modes=('proof', 'bounded', 'concrete'))
def empty(v):
    c = define(v)
    p = parser(v, denote=False)
    redefined(v, p, c.spelling)
    g = translate(v, p, c)
    defined(v, g, c.spelling, True)


@contract('C08.alias', 'cursorhandler.CursorHandler.MACRO_DEFINITION, _literal_handling, codegenerator.Generator.Macro '
          '(the name of another macro)', ['C08'], modes=('proof', 'bounded', 'concrete'))
def alias(v):
    p = parser(v, denote=False)
    of = v.choice('of', ['nothing', 'integer', 'floating', 'string'])
    if of == 'nothing':
        tokens, value = [], True
    elif of == 'string':
        value = v.str('body', 'run', charset=PLAIN)
        tokens = [(L, v.choice('prefix', ['', 'L']) + '"' + value + '"')]
    else:
        text, value = int_literal(v, suffixes=('', 'ull')) if of == 'integer' else float_literal(v, suffixes=('', 'F'))
        minus = of == 'integer' and v.choice('minus', [False, True])
        tokens, value = ([(P, '-')] if minus else []) + [(L, text)], -value if minus else value
    target = define(v, tokens, prefix='other ', after=(None,))
    v.prove(p.parse_cursor(target) is True, 'the other macro is handled')
    n = v.choice('parentheses', [0] if of in ('nothing', 'string') else [0, 1])
    c = define(v, [(P, '(')] * n + [(I, target.spelling)] + [(P, ')')] * n, after=(None, 'comment'))
    v.assume(c.spelling != target.spelling)
    g = translate(v, p, c)
    defined(v, g, c.spelling, value)


@contract('C08.Macro', 'codegenerator.Generator.Macro (with comments and locations)', ['C08', 'C19'], modes=('proof', 'bounded', 'concrete'))
def macro(v):
    td = v.mod('ctypeslib.codegen.typedesc')
    g = generator(v)
    name, args, value = v.str('name'), None, None
    kind = v.choice('kind', ['empty', 'string', 'integer', 'function', 'unknown', 'list', 'none'])
    if kind == 'empty':
        body = value = True
    elif kind == 'string':
        value = v.str('body', 'run', charset=PLAIN)
        body = '"' + value + '"'
    elif kind == 'integer':
        body = v.choice('notation', ['', '0x10']) or v.str('first', 'char', charset=DEC - {'0'}) + v.str('digits', 'run', charset=DEC)
        value = 16 if isinstance(body, str) and body == '0x10' else v.numeral(10, body)
    elif kind == 'function':
        args, body = '(' + v.str('args', 'line'), v.str('body', 'line')
    elif kind == 'unknown':
        body = td.UndefinedIdentifier(v.str('lost'))
    elif kind == 'list':
        body = v.list('(', td.UndefinedIdentifier(v.str('lost'))) + v.seq('rest', lambda sc: sc.str('token', 'line'))
    else:
        body = None
    m = td.Macro(name, args, body)
    chatty(v, g, m)
    m.comment = v.choice('comment', [None, True]) and v.str('comment', 'text')
    placed = m.location is not None
    g.Macro(m)
    if placed and value is not None:
        defined(v, g, name, value)
    elif placed and kind == 'none':
        v.expect_program(v.program(g), [('=', N(name), None)], 'the module has no value for it')
        v.expect_list(g.names, [name], 'exported')
    else:
        absent(v, g)
