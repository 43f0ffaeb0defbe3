"""random C programs made of named declarations with known references between them"""
from .common import SCALARS, nasty


# the names of stdint.h
SIZED = [('unsigned char', 'uint8_t'), ('signed char', 'int8_t'), ('unsigned short', 'uint16_t'), ('short', 'int16_t'), ('unsigned int', 'uint32_t'),
         ('int', 'int32_t'), ('unsigned long', 'uint64_t'), ('long', 'int64_t')]


def program(r, n=None, macros=False, values=True, bits=True):
    """list of [kind, C name, python name, text, references (indices, by value), references (indices, any)]"""
    ds = []
    n = n or r.randint(2, 9)
    for i in range(n):
        k = r.choice(['s', 's', 's', 'u', 'e', 't', 't', 'f', 'f', 'd'] + (['m'] if macros else []))
        val = [j for j in range(i) if ds[j][0] in 'sute' and ds[j][5 + 1] is not None]
        hard, soft = [], []

        def use(ptr=.4):
            """a C type text with an optional reference"""
            if val and r.random() < .6:
                j = r.choice(val)
                t = ds[j][6]
                if r.random() < ptr:
                    soft.append(j)
                    return t + ' *'
                soft.append(j)
                hard.append(j)
                return t
            return r.choice(SCALARS) + r.choice(['', '', ' *'])
        nm = '%s%d' % (r.choice(['a', 'ab', 'abc', 'foo', 'x_y', 'Zed', 'b', '__k']), i)
        nm = nasty(r, nm, .15)
        cn = None
        if k in 'su':
            kw = {'s': 'struct', 'u': 'union'}[k]
            fs = ['%s m%d%s;' % (use(), j, r.choice(['', '', '[3]'])) for j in range(r.randint(1, 4))]
            for j in range(r.choice([0] * 6 + [1, 2]) if bits else 0):
                t, w = r.choice([('int', 31), ('unsigned', 32), ('char', 7), ('short', 12), ('long', 50), ('_Bool', 1)])
                fs.append('%s b%d : %d;' % (t, j, r.randint(1, w)))
            if r.random() < .2:
                fs.append('%s %s *self;' % (kw, nm))
            txt = '%s %s { %s };' % (kw, nm, ' '.join(fs))
            cn, py = '%s %s' % (kw, nm), kw + '_' + nm
        elif k == 'e':
            txt = 'enum %s { %s };' % (nm, ', '.join('%s_%d%s' % (nm, j, r.choice(['', ' = %d' % r.randint(-5, 50)])) for j in range(r.randint(1, 4))))
            cn, py = 'enum ' + nm, nm
        elif k == 't':
            txt = 'typedef %s%s;' % (use() + ' ', nm)
            sized = r.choice(SIZED)
            if r.random() < .15 and all(d[1] != sized[1] for d in ds):
                hard, soft, nm = [], [], sized[1]
                txt = 'typedef %s %s;' % sized
            cn, py = nm, nm
        elif k == 'f':
            txt = '%s %s(%s);' % (use(), nm, ', '.join(use() + ' p%d' % j for j in range(r.randint(0, 3))) or 'void')
            py = nm
        elif k == 'd':
            txt = '%s %s%s;' % (r.choice(['int', 'long', 'unsigned', 'double']), nm, r.choice(['', ' = %d' % r.randint(0, 99)]) if values else '')
            py = nm
        else:
            txt = '#define %s %d' % (nm, r.randint(0, 99))
            py = nm
        ds.append([k, nm, py, txt, sorted(set(hard)), sorted(set(soft)), cn])
    return ds


def text(ds, order=None):
    return '\n'.join(d[3] for d in (ds if order is None else [ds[i] for i in order])) + '\n'


def closure(ds, roots, col):
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(ds[i][col])
    return seen


def drop(ds, i):
    """the program without declaration i, or None when it is used"""
    if any(i in d[5] for d in ds):
        return None
    m = lambda l: [j - (j > i) for j in l]
    return [[d[0], d[1], d[2], d[3], m(d[4]), m(d[5]), d[6]] for k, d in enumerate(ds) if k != i]
