"""one definition per entity, in any order"""
import ctypes
import re
from .common import module_of, clang_tu, bad_c, Skip, match, pyname
from . import progs

RULE = ('random programs whose declarations are repeated and preceded by forward declarations, in several orders that C allows; every entity is generated '
        'once, complete records have all their members, and the layout is that of C; non-trivial: at least one forward or repeated declaration')
LIMIT = 1200


def gen(r):
    ds = progs.program(r, r.randint(2, 7), values=False, bits=False)
    lines = []
    left = set(range(len(ds)))
    done = set()
    order = []
    while left:
        ready = [i for i in left if all(j in done for j in (ds[i][5] if r.random() < .3 else
                 [j for j in ds[i][5] if j in ds[i][4] or ds[j][0] not in 'su']))]
        if not ready:
            ready = [i for i in left if all(j in done for j in ds[i][5])]
        i = r.choice(ready)
        left.discard(i)
        done.add(i)
        order.append(i)
    for i in order:
        k, nm, py, txt, hard, soft, cn = ds[i]
        for j in soft:
            if ds[j][0] in 'su' and order.index(j) > order.index(i) and (ds[j][6] + ';') not in lines:
                lines.append(ds[j][6] + ';')
        if k in 'su' and r.random() < .4:
            lines.insert(r.randint(0, len(lines)), cn + ';')
        if k in 'su' and r.random() < .25:
            lines.append('typedef %s *TP%d;' % (cn, i))
        if k in 'su' and r.random() < .15:
            lines.append('int use%d(%s *p);' % (i, cn))
        if k in 'su' and r.random() < .15:
            lines.append('typedef %s TV%d;' % (cn, i))
        if k == 'e' and nm and r.random() < .3:
            lines.insert(r.randint(0, len(lines)), 'enum %s;' % nm)
        lines.append(txt)
        if k in 'su' and r.random() < .2:
            lines.append(cn + ';')
        if k in 'tf' and r.random() < .3:
            lines.append(txt)
        if k == 'e' and r.random() < .2:
            lines.append('enum %s;' % nm)
    only = None
    if r.random() < .15:
        # a chain of records that point to each other, the first ones first
        n = r.randint(3, 40)
        un = [r.choice(['struct', 'struct', 'union']) for _ in range(n + 1)]
        chain = ['%s r%d { %s%s *n; };' % (un[j], j, 'int v; ' if r.random() < .5 else '', '%s r%d' % (un[j + 1], j + 1)) for j in range(n)]
        for k in range(n):
            lines.insert(r.randint(0, len(lines)) if r.random() < .1 else len(lines), chain[k])
        lines.append('%s r%d { int end; };' % (un[n], n))
        if r.random() < .5:
            only = un[0] + '_r0'                # the only one asked for
    if r.random() < .3:
        un = r.choice(['struct', 'union'])
        lines.append('%s never; %sstruct keeps { %s never *p; };' % (un, '%s never; ' % un if r.random() < .4 else '', un))
    first = None
    if r.random() < .2:
        # an earlier file of the same translation, that only declares some of the records
        first = [(ds[i][6] + ';') + (' extern %s *px%d;' % (ds[i][6], i) if r.random() < .5 else '')
                 for i in range(len(ds)) if ds[i][0] in 'su' and r.random() < .6] or None
    return dict(lines=lines, first=None if only else first, only=only)


def reduce(case):
    for i in range(len(case['lines'])):
        yield dict(case, lines=case['lines'][:i] + case['lines'][i + 1:])
    for i in range(len(case['first'] or ())):
        yield dict(case, first=case['first'][:i] + case['first'][i + 1:])


def nontrivial(case):
    return bool(case['first']) or any(re.match(r'(struct|union|enum) \w+;', x) for x in case['lines']) or len(set(case['lines'])) < len(case['lines'])


def check(case):
    src = '\n'.join(case['lines']) + '\n'
    if case['only']:
        rs = {int(m.group(1)) for m in (re.match(r'(?:struct|union) r(\d+) \{', x) for x in case['lines']) if m}
        if not rs or rs != set(range(len(rs))):
            raise Skip
    tu = clang_tu(src)
    if bad_c(tu):
        raise Skip
    ns, txt = module_of(src, symbols=[case['only']] if case['only'] else [], earlier=None if case['first'] is None else '\n'.join(case['first']) + '\n')
    classes = re.findall(r'^class (\w+)\(', txt, re.M)
    twice = sorted({c for c in classes if classes.count(c) > 1})
    if twice:
        return 'twice: class %s in\n%s' % (twice, src)
    fl = re.findall(r'^(?:(\w+)\.)?_fields_ = ', txt, re.M)
    twice = sorted({c for c in fl if c and fl.count(c) > 1})
    if twice:
        return 'twice: fields of %s in\n%s' % (twice, src)
    dup = sorted({n for n in ns['__all__'] if ns['__all__'].count(n) > 1})
    if dup:
        return 'twice: %s in __all__ for\n%s' % (dup, src)
    for c in tu.cursor.get_children():
        if c.kind.name in ('STRUCT_DECL', 'UNION_DECL'):
            d = c.type.get_declaration()
            cls = ns.get(pyname(c))
            if case['only'] and not re.fullmatch(r'r\d+', c.spelling):
                continue
            if cls is None:
                return 'missing: %s in\n%s' % (pyname(c), src)
            if c.type.get_size() < 0:
                continue
            got = [f for f in getattr(cls, '_fields_', []) if not f[0].startswith('PADDING_')]
            want = list(c.type.get_fields())
            if [g[0] for g in got] != [w.spelling for w in want]:
                return 'members: %s has %s in\n%s' % (pyname(c), [g[0] for g in got], src)
            if ctypes.sizeof(cls) != c.type.get_size():
                return 'size: %s in\n%s' % (pyname(c), src)
            for g, w in zip(got, want):
                m = match(g[1], w.type, ns)
                if m:
                    return 'type: %s.%s: %s in\n%s' % (pyname(c), w.spelling, m, src)
        elif case['only']:
            continue
        elif c.kind.name == 'ENUM_DECL' and c.spelling and '(' not in c.spelling:
            want = {e.enum_value: e.spelling for e in c.type.get_declaration().get_children() if e.kind.name == 'ENUM_CONSTANT_DECL'}
            got = ns.get(c.spelling + '__enumvalues')
            if c.spelling not in ns or got is None or set(got) != set(want):
                return 'enum: %s has the values %s in\n%s' % (c.spelling, got, src)
        elif c.kind.name == 'FUNCTION_DECL':
            f = ns.get(c.spelling)
            if f is None or len(f.argtypes) != len(list(c.get_arguments())):
                return 'function: %s in\n%s' % (c.spelling, src)
            for g, w in zip(f.argtypes, c.type.argument_types()):
                m = match(g, w, ns)
                if m:
                    return 'function: %s: %s in\n%s' % (c.spelling, m, src)
        elif c.kind.name == 'TYPEDEF_DECL':
            if c.spelling not in ns:
                return 'missing: typedef %s in\n%s' % (c.spelling, src)
            if c.type.get_canonical().kind.name != 'VOID' and c.type.get_size() != -2:
                m = match(ns[c.spelling], c.type, ns)
                if m:
                    return 'typedef: %s: %s in\n%s' % (c.spelling, m, src)
    return None
