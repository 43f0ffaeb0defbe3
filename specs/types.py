"""Abstract types: a type description with its type expression (`expr`), of any class."""
from specs.common import N

KINDS = ('fundamental', 'char', 'record', 'union', 'typedef', 'enum', 'pointer', 'array', 'function', 'pointer to function')


def tdesc(td, sc, n='', kinds=KINDS):
    """some type: what is known of it is its class and (by the induction hypothesis) its type expression"""
    k = sc.choice(n + 'class', kinds)
    name = sc.str(n + 'name')
    if k == 'fundamental':
        t = td.FundamentalType(name, 4, 4)
    elif k == 'char':
        t = td.FundamentalType('c_char', 1, 1)
    elif k == 'record':
        t = td.Structure(name, 4, [], [], 4)
    elif k == 'union':
        t = td.Union(name, 4, [], [], 4)
    elif k == 'typedef':
        t = td.Typedef(name, td.FundamentalType('c_int32', 4, 4))
    elif k == 'enum':
        t = td.Enumeration(name, 4, 4)
    elif k == 'pointer':
        t = td.PointerType(td.FundamentalType(name, 4, 4), 8, 8)
    elif k == 'array':
        t = td.ArrayType(td.FundamentalType(name, 4, 4), 3)
    elif k == 'function':
        t = td.FunctionType(td.FundamentalType(name, 4, 4), [])
    else:
        t = td.PointerType(td.FunctionType(td.FundamentalType(name, 4, 4), []), 8, 8)
    t.expr = sc.str(n + 'expr', 'expr')
    return t


def E(t):
    """the reading of the type expression of t"""
    return N(t.expr)


def known_types(g):
    """induction hypothesis: type_name(t) is the type expression of t for the types below the one under contract"""
    real = g.type_name

    def type_name(t, generate=True):
        return t.expr if hasattr(t, 'expr') else real(t, generate)
    g.type_name = type_name
    return g
