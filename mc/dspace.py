"""The bounded space of DMAP record lists shared by C01 and C02.

expand(case) yields (key, ref, given, form):
  ref   reference records [(scalars, arrays)]
  given the records as a user would hand them in (list of dicts, or of
        DmapScalar/DmapArray dicts when form == 'dmap')
"""
import collections
import itertools
import numpy as np
import dmapcodec as dc

KINDS = [('s', c) for c in dc.CODES] + [('a', c) for c in dc.NUMERIC]     # 21 kinds of field
NAMES = ['a', 'ab', 'stid', 'a.b-c', 'A b', '0', 'x' * 40, '\u00e9', '\u65e5\u672c', '\U0001F4E1', '',
         'origin.time', '\t', 'name', 'value', 'slist', "q'\"", '\\']
SHAPES1 = [(n,) for n in range(1, 6)]


def shapes(maxrank, maxdim):
    for r in range(1, maxrank + 1):
        yield from itertools.product(range(1, maxdim + 1), repeat=r)


def scalar(name, code, v):
    return (name, code, v), dc.np_value(code, v)


def array(name, code, shape, base=0):
    n = int(np.prod(shape))
    v = dc.cells(code, n, base).reshape(shape)
    return (name, code, tuple(shape), v.tobytes()), v


def build(fields):
    """fields: list of ((ref), given) in dict order -> (ref record, dict)."""
    sc = [f[0] for f in fields if len(f[0]) == 3]
    ar = [f[0] for f in fields if len(f[0]) == 4]
    return (sc, ar), collections.OrderedDict((f[0][0], f[1]) for f in fields)


def field(kind, name, k=0):
    if kind[0] == 's':
        vals = {9: ['tx%d' % k, '', '\u00fc%d' % k][k % 3] if k else 'txt'}
        v = vals[9] if kind[1] == 9 else dc.cells(kind[1], k + 2)[-1].item()
        return scalar(name, kind[1], v)
    shp = [(2,), (1,), (2, 3), (3, 1, 2)][k % 4]
    return array(name, kind[1], shp, k)


def record(i):
    """A pool of clearly different records."""
    pool = [
        [('s', 3), ('a', 2)], [('s', 9), ('a', 4)], [('s', 1), ('s', 9), ('a', 1), ('a', 8)],
        [('s', 19), ('a', 19)], [('a', 16), ('s', 16)], [('s', 8), ('a', 10), ('a', 10)],
        [('s', 4), ('s', 4), ('s', 2), ('a', 17)], [('s', 10), ('a', 18), ('a', 3)],
        [('s', 18), ('s', 17), ('a', 4), ('a', 4), ('a', 2)], [('s', 3), ('a', 2)],
    ]
    # the last one has the field names of record 0 with other values
    flds = [field(k, 'f%d' % j, j + (i % len(pool))) for j, k in enumerate(pool[i % len(pool)])]
    return build(flds)


def to_dmap(ref):
    from pydarnio import DmapScalar, DmapArray
    out = []
    for sc, ar in ref:
        d = collections.OrderedDict()
        for n, c, v in sc:
            d[n] = DmapScalar(n, v, c, dc.LETTER[c])
        for n, c, shp, raw in ar:
            v = np.frombuffer(raw, dc.CODES[c][2]).reshape(shp)
            d[n] = DmapArray(n, v, c, dc.LETTER[c], len(shp), list(shp))
        out.append(d)
    return out


def cases(tier):
    for c in dc.CODES:
        yield ['scalars', c]
    for c in dc.NUMERIC:
        yield ['arrays', c, 1]
        yield ['arrays', c, 2]
        yield ['arrays', c, 3]
        if tier == 'thorough':
            yield ['arrays', c, 4]
            yield ['arrays', c, 5]
    yield ['bigarrays']
    n = 4
    for first in range(len(KINDS)):
        for second in range(len(KINDS)):
            yield ['lists', n, first, second]
    if tier == 'thorough':
        for first in range(len(KINDS)):
            for second in range(len(KINDS)):
                yield ['lists', 5, first, second]
    for i in range(10):
        yield ['records', i, 3 if tier == 'quick' else 4]
    yield ['names']
    yield ['texts']
    yield ['plain']
    yield ['forms']
    yield ['many']
    for c in dc.CODES:
        yield ['dense', c]
    yield ['tight']
    yield ['ranks']


def expand(case):
    fam = case[0]
    if fam == 'scalars':
        c = case[1]
        tail = array('z', 2, (2,))
        all_ref, all_given = [], []
        for v in dc.scalar_values(c):
            r, g = build([scalar('v', c, v), tail])
            yield ('scalar', c, v), [r], [g], 'dict'
            yield ('scalar-dmap', c, v), [r], to_dmap([r]), 'dmap'
            all_ref.append(r)
            all_given.append(g)
        yield ('scalars-all', c), all_ref, all_given, 'dict'
        # the same values as the fields of one record
        fl = [scalar('v%d' % i, c, v) for i, v in enumerate(dc.scalar_values(c))] + [tail]
        r, g = build(fl)
        yield ('scalars-one', c), [r], [g], 'dict'
        if c == 10:
            g2 = dict(g)
            for n in g:
                if n != 'z':
                    g2[n] = np.longlong(g[n])
            yield ('longlong',), [r], [g2], 'dict'
        if c == 19:
            g2 = dict(g)
            for n in g:
                if n != 'z':
                    g2[n] = np.ulonglong(g[n])
            yield ('ulonglong',), [r], [g2], 'dict'
        if c != 9:
            # all values as one array too
            arr = np.array([dc.np_value(c, v) for v in dc.scalar_values(c)], dtype=dc.CODES[c][2])
            r, g = build([scalar('v', 3, 1), (('z', c, arr.shape, arr.tobytes()), arr)])
            yield ('array-all', c), [r], [g], 'dict'
    elif fam == 'arrays':
        c, rank = case[1], case[2]
        for shp in itertools.product(range(1, {1: 8, 2: 4, 3: 3, 4: 3, 5: 2}[rank] + 1), repeat=rank):
            ref_a, arr = array('z', c, shp)
            for lay, a in dc.layouts(arr):
                r, g = build([scalar('v', 3, 7), (ref_a, a)])
                yield ('array', c, shp, lay), [r], [g], 'dict'
            r, g = build([scalar('v', 3, 7), (ref_a, arr.tolist())])
            dt = np.array(arr.tolist()).dtype
            if dt == arr.dtype:
                yield ('array-list', c, shp), [r], [g], 'dict'
            if c in (10, 19):
                t = np.longlong if c == 10 else np.ulonglong
                r, g = build([scalar('v', 3, 7), (ref_a, arr.astype(t))])
                yield ('array-longlong', c, shp), [r], [g], 'dict'
            # transposed view in the middle of other arrays
            if rank > 1:
                tr = np.ascontiguousarray(arr.transpose()).transpose()
                r, g = build([scalar('v', 3, 7), array('y', 2, (3,)), (ref_a, tr), array('x', 1, (1,))])
                yield ('array-mid', c, shp), [r], [g], 'dict'
            r, g = build([scalar('v', 3, 7), (ref_a, arr)])
            yield ('array-dmap', c, shp), [r], to_dmap([r]), 'dmap'
    elif fam == 'bigarrays':
        for c in dc.NUMERIC:
            for shp in [(300,), (256,), (255,), (257,), (1, 300), (300, 1), (16, 20), (2, 3, 50),
                        (70000,), (1,) * 6, (2,) * 7]:
                r, g = build([scalar('v', 3, 7), array('z', c, shp)])
                yield ('bigarray', c, shp), [r], [g], 'dict'
    elif fam == 'lists':
        n, first, second = case[1:]
        lens = [n] if n == 5 else list(range(2, n + 1))
        for ln in lens:
            for rest in itertools.product(range(len(KINDS)), repeat=ln - 2):
                ks = [KINDS[i] for i in (first, second) + rest]
                if not (any(k[0] == 's' for k in ks) and any(k[0] == 'a' for k in ks)):
                    continue
                r, g = build([field(k, 'f%d' % j, j) for j, k in enumerate(ks)])
                yield ('list', ks), [r], [g], 'dict'
    elif fam == 'records':
        first, n = case[1:]
        for ln in range(1, n + 1):
            for rest in itertools.product(range(10), repeat=ln - 1):
                recs = [record(i) for i in (first,) + rest]
                yield ('records', (first,) + rest), [x[0] for x in recs], [x[1] for x in recs], 'dict'
    elif fam == 'names':
        for a, b in itertools.permutations(NAMES, 2):
            r, g = build([scalar(a, 3, 5), array(b, 2, (3,))])
            yield ('names', a, b), [r], [g], 'dict'
        for a, b, c in itertools.permutations(NAMES[7:11] + ['a'], 3):
            r, g = build([scalar(a, 9, b), scalar(b, 1, -1), array(c, 4, (2, 2))])
            yield ('names3', a, b, c), [r, r], [g, g], 'dict'
        for i in range(1, 0x800):
            if 0xd800 <= i < 0xe000:
                continue
            r, g = build([scalar(chr(i), 9, chr(i) + 'x'), array('n' + chr(i), 2, (1,))])
            yield ('name-chr', i), [r], [g], 'dict'
    elif fam == 'texts':
        t = dc.scalar_values(9)
        for a, b in itertools.product(t, t):
            r, g = build([scalar('s', 9, a), scalar('i', 3, 9), scalar('t', 9, b), array('z', 2, (2,))])
            yield ('texts', a, b), [r, r], [g, g], 'dict'
        for n in list(range(0, 70)) + [127, 128, 255, 256, 257, 1023, 1024, 65536]:
            r, g = build([scalar('s', 9, 'y' * n), array('z', 2, (2,))])
            yield ('textlen', n), [r], [g], 'dict'
        for cp in (0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff):
            r, g = build([scalar('s', 9, chr(cp) * 3), array('z', 2, (2,))])
            yield ('textcp', cp), [r], [g], 'dict'
    elif fam == 'plain':
        for v in dc.scalar_values(3):
            r, g = build([(('v', 3, v), int(v)), array('z', 2, (2,))])
            yield ('pyint', v), [r], [g], 'dict'
        for v in dc.scalar_values(4):
            r, g = build([(('v', 4, v), float(v)), array('z', 2, (2,))])
            yield ('pyfloat', v), [r], [g], 'dict'
        for v in [0.1, 1 / 3, 1e10 / 3, 123456.789]:
            import struct
            f = struct.unpack('=f', struct.pack('=f', v))[0]
            r, g = build([(('v', 4, f), v), array('z', 2, (2,))])
            yield ('pyfloat-rounded', v), [r], [g], 'dict'
        for lst in [[1, 2, 3], [[1, 2], [3, 4]], [-1], [2 ** 40, 1]]:
            a = np.array(lst, dtype=np.int64)
            r, g = build([scalar('v', 3, 1), (('z', 10, a.shape, a.tobytes()), lst)])
            yield ('pylist', str(lst)), [r], [g], 'dict'
        for lst in [[1.5, 2.5], [[0.1]], [float('nan'), float('inf')]]:
            a = np.array(lst, dtype=np.float64)
            r, g = build([scalar('v', 3, 1), (('z', 8, a.shape, a.tobytes()), lst)])
            yield ('pylist', str(lst)), [r], [g], 'dict'
    elif fam == 'forms':
        recs = [record(i) for i in range(10)]
        ref = [x[0] for x in recs]
        given = [x[1] for x in recs]
        yield ('list',), ref, given, 'dict'
        yield ('dicts',), ref, [dict(g) for g in given], 'dict'
        yield ('deque',), ref, collections.deque(given), 'dict'
        yield ('tuple',), ref, tuple(given), 'dict'
        yield ('dmap',), ref, to_dmap(ref), 'dmap'
        yield ('dmap-deque',), ref, collections.deque(to_dmap(ref)), 'dmap'
        # one record object, one array object shared between records / fields
        yield ('shared',), [ref[0], ref[0]], [given[0], given[0]], 'dict'
        a = dc.cells(2, 6).reshape(2, 3)
        sh = (('z', 2, (2, 3), a.tobytes()), a)
        sh2 = (('y', 2, (2, 3), a.tobytes()), a)
        r, g = build([scalar('v', 3, 1), sh, sh2])
        yield ('shared-array',), [r, r], [g, dict(g)], 'dict'
    elif fam == 'many':
        for n in (1, 2, 5, 50, 500):
            recs = [record(i * 7 % 10) for i in range(n)]
            yield ('many', n), [x[0] for x in recs], [x[1] for x in recs], 'dict'
        for n in (1, 2, 63, 64, 65, 200):
            fl = [scalar('s%d' % i, 3, i) for i in range(n)] + [array('a%d' % i, 2, (i % 3 + 1,), i) for i in range(n)]
            r, g = build(fl)
            yield ('manyfields', n), [r, r], [g, g], 'dict'
    elif fam == 'dense':
        # many of the smallest possible fields: one-byte (or no) names, one cell
        c = case[1]
        names = [''] + [chr(i) for i in range(1, 128)]
        for ns in list(range(1, 41)) + [63, 64, 65, 100]:
            for na in (1, 2, 3, 8, 20):
                fl = [scalar(names[i], c, '' if c == 9 else dc.cells(c, i + 1)[-1].item()) for i in range(ns)]
                fl += [array(names[ns + i], 1 if c == 9 else c, (1,), i) for i in range(na)]
                r, g = build(fl)
                yield ('dense', c, ns, na), [r], [g], 'dict'
        for na in list(range(1, 41)) + [63, 64, 65, 100]:
            fl = [scalar('', 1, 1)] + [array(names[1 + i], 1 if c == 9 else c, (1,), i) for i in range(na)]
            r, g = build(fl)
            yield ('dense-arrays', c, na), [r, r], [g, g], 'dict'
    elif fam == 'tight':
        # one small scalar and one array that fills nearly the whole record
        for k in list(range(1, 300)) + [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]:
            for c in (1, 16, 2, 8):
                r, g = build([scalar('', 1, 1), array('a', c, (k,))])
                yield ('tight', k, c), [r], [g], 'dict'
    elif fam == 'ranks':
        for rank in range(1, 33):
            for big in sorted({0, rank // 2, rank - 1}):
                shp = tuple(3 if i == big else 1 for i in range(rank))
                for c in (1, 3):
                    r, g = build([scalar('', 1, 1), array('a', c, shp)])
                    yield ('ranks', rank, big, c), [r, r], [g, g], 'dict'
