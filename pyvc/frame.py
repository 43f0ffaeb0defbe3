"""The frame of every contract: what all translations of a process share is not changed.  Shared are the globals of the
modules of the package, the attributes of its classes and the defaults and attributes of its functions."""
import collections
import importlib
import sys
import types
from .core import Sym
from .values import IList, VDict, VSet, SymStream

PACKAGE = 'ctypeslib'
CONTAINERS = (list, dict, set, collections.deque)
VALUES = (int, float, complex, str, bytes, bool, type(None), type(...))


def _own(x):
    return (getattr(x, '__module__', None) or '').split('.')[0] == PACKAGE


def look(x, seen, depth=0):
    """what a change of x changes"""
    if isinstance(x, Sym):
        return ('id', id(x))
    if isinstance(x, VALUES):
        return x
    if isinstance(x, (tuple, frozenset)):
        return ('tuple', tuple(look(y, seen, depth + 1) for y in x)) if isinstance(x, tuple) else ('id', id(x))
    if id(x) in seen or depth > 12:
        return ('id', id(x))
    if isinstance(x, CONTAINERS):
        seen.add(id(x))
        if isinstance(x, dict):
            items = [(look(k, seen, depth + 1), look(y, seen, depth + 1)) for k, y in list(x.items())]
        elif isinstance(x, set):
            items = sorted(hash(y) for y in x)
        else:
            items = [look(y, seen, depth + 1) for y in x]
        return (type(x).__name__, id(x), tuple(items))
    if isinstance(x, (IList, VDict, VSet, SymStream)):
        seen.add(id(x))
        parts = {IList: lambda: x.parts, VDict: lambda: x.entries.parts, VSet: lambda: x.items.parts + x.removed.parts,
                 SymStream: lambda: x.chunks.parts}[next(t for t in (IList, VDict, VSet, SymStream) if isinstance(x, t))]()
        return (type(x).__name__, id(x), tuple(look(y, seen, depth + 1) for y in parts))
    if isinstance(x, types.FunctionType) and _own(x):
        seen.add(id(x))
        d = {k: y for k, y in vars(x).items() if k != '__wrapped__'}
        cells = []
        for c in x.__closure__ or ():
            try:
                cells.append(c.cell_contents)
            except ValueError:
                cells.append(None)
        return ('function', id(x), tuple(look(y, seen, depth + 1) for y in x.__defaults__ or ()),
                tuple((k, look(y, seen, depth + 1)) for k, y in (x.__kwdefaults__ or {}).items()),
                tuple((k, look(y, seen, depth + 1)) for k, y in d.items()), tuple(look(y, seen, depth + 1) for y in cells))
    if hasattr(x, 'cache_info'):
        return ('cache', id(x), x.cache_info().currsize)
    if isinstance(x, (staticmethod, classmethod)):
        return look(x.__func__, seen, depth)
    if isinstance(x, property):
        return tuple(look(f, seen, depth + 1) for f in (x.fget, x.fset, x.fdel))
    if isinstance(x, type) and _own(x):
        seen.add(id(x))
        return ('class', id(x), tuple((k, look(y, seen, depth + 1)) for k, y in sorted(vars(x).items())
                                      if k != '_abc_impl' and (isinstance(y, types.FunctionType) or not k.startswith('__'))))
    if not isinstance(x, (type, types.ModuleType, types.FunctionType)) and _own(type(x)) and hasattr(x, '__dict__'):
        seen.add(id(x))
        return ('object', id(x), tuple((k, look(y, seen, depth + 1)) for k, y in sorted(vars(x).items())))
    return ('id', id(x))


MODULES = ['library', 'clang2py', 'codegen.util', 'codegen.typedesc', 'codegen.config', 'codegen.handler', 'codegen.typehandler',
           'codegen.cursorhandler', 'codegen.clangparser', 'codegen.codegenerator']


def load():
    for n in MODULES:
        try:
            importlib.import_module('%s.%s' % (PACKAGE, n))
        except ImportError:
            pass


def shared():
    out = {}
    seen = set()
    for n, m in sorted(sys.modules.items()):
        if (n == PACKAGE or n.startswith(PACKAGE + '.')) and '.data' not in n and '.test' not in n and m is not None:
            for k, x in sorted(vars(m).items()):
                # (a submodule that is imported first by a function becomes an attribute of its package)
                if not k.startswith('__') and not isinstance(x, types.ModuleType):
                    out[n, k] = look(x, seen)
    return out


def differs(a, b):
    """where the shared state differs, or None"""
    for k in b:
        # (modules may be imported late)
        if k in a and a[k] != b[k] or k not in a and any(x[0] == k[0] for x in a):
            return '%s.%s' % k
    for k in a:
        if k not in b:
            return '%s.%s' % k
    return None


WATCHED = []        # (object, its look) on the path


def watch(x):
    """x is read only for the code of the path"""
    WATCHED.append((x, look(x, set())))


def watched():
    """where a watched object differs, or None"""
    for x, before in WATCHED:
        after = look(x, set())
        if after != before:
            d = [k for (k, a), (_, b) in zip(before[2], after[2]) if a != b]
            return 'the %s given to it: %s' % (type(x).__name__, d)
    return None


def reach(x):
    """the mutable objects x is made of, by identity (modules, classes and functions are shared; what they hold is in shared())"""
    out, todo = {}, [x]
    while todo:
        y = todo.pop()
        if isinstance(y, VALUES + (type, types.ModuleType, types.FunctionType, Sym)) or id(y) in out:
            continue
        if isinstance(y, types.MethodType):
            todo.append(y.__self__)
            continue
        if isinstance(y, (tuple, frozenset)):
            todo.extend(y)
            continue
        if isinstance(y, dict):
            todo.extend(list(y.keys()) + list(y.values()))
        elif isinstance(y, (list, set, collections.deque)):
            todo.extend(y)
        elif isinstance(y, IList):
            todo.extend(y.parts)
        elif isinstance(y, VDict):
            todo.append(y.entries)
        elif isinstance(y, VSet):
            todo.extend([y.items, y.removed])
        elif isinstance(y, SymStream):
            todo.append(y.chunks)
        elif _own(type(y)):
            todo.extend(vars(y).values())
        elif not hasattr(y, 'getvalue'):
            continue        # of another package: not followed
        out[id(y)] = y
    return out
