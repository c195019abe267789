"""C19: dictionaries and DMAP structures convert into each other losslessly."""
import collections
import itertools
import numpy as np
import dmapcodec as dc
import dspace
from snap import snap

PID = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded DMAP record lists; both real conversions checked on '
             'every one against the types of the values and an independent DMAP encoder')
RULE = ('for every record list of the bounded space: dict2dmap gives structures of the right name, type, rank, shape '
        'and value, dmap2dict gives the dictionary back, structures read from the reference bytes survive both '
        'conversions and encode to the same bytes, arguments stay as they were; every list holding an unsupported '
        'value is refused; non-trivial when at least one field is converted')
ASSUMPTIONS = ['little-endian host', 'plain Python int and float stand for the 32-bit DMAP types',
               'the reference codec (mc/dmapcodec.py) states the DMAP format']

DTYPE = {np.dtype(v[2]).str[1:]: c for c, v in dc.CODES.items() if v[2]}


def code_of(v):
    if isinstance(v, list):
        v = np.array(v)
    if isinstance(v, (np.ndarray, np.generic)):
        return DTYPE[v.dtype.newbyteorder('<').str[1:]]
    return {int: 3, float: 4, str: 9}[type(v)]


def native(a):
    return a.astype(a.dtype.newbyteorder('=')).tobytes()


def diff_value(name, given, got):
    """got is the value of a structure or of a dictionary made from given."""
    if isinstance(given, list):
        given = np.array(given)
    if isinstance(given, np.ndarray):
        if not isinstance(got, np.ndarray):
            return '%s is no array any more' % name
        if got.shape != given.shape:
            return '%s has shape %r instead of %r' % (name, got.shape, given.shape)
        if code_of(got) != code_of(given):
            return '%s has element type %s instead of %s' % (name, got.dtype, given.dtype)
        if native(got) != native(given):
            return '%s has other values' % name
        return None
    if isinstance(got, np.ndarray):
        return '%s became an array' % name
    if isinstance(given, str) or isinstance(got, str):
        if not (isinstance(given, str) and isinstance(got, str)) or given != got:
            return '%s = %r instead of %r' % (name, got, given)
        return None
    if isinstance(got, (bool, np.bool_)):
        return '%s became %r' % (name, got)
    if not isinstance(got, (int, float, np.generic)) or code_of(got) != code_of(given):
        return '%s = %r (%s) instead of %r' % (name, got, type(got).__name__, given)
    if isinstance(given, float) and not isinstance(given, np.generic):
        same = np.float64(got).tobytes() == np.float64(given).tobytes() or (got != got and given != given)
    elif isinstance(given, (float, np.floating)):
        same = type(given)(got).tobytes() == given.tobytes() or bool(got != got and given != given)
    else:
        same = int(got) == int(given)
    return None if same else '%s = %r instead of %r' % (name, got, given)


def diff_struct(recs, out):
    if len(recs) != len(out):
        return '%d records instead of %d' % (len(out), len(recs))
    for i, (g, o) in enumerate(zip(recs, out)):
        if list(o.keys()) != list(g.keys()):
            return 'record %d: fields %r instead of %r' % (i, list(o.keys()), list(g.keys()))
        for n, v in g.items():
            s = o[n]
            if isinstance(v, list):
                v = np.array(v)
            isarr = isinstance(v, np.ndarray)
            if type(s).__name__ != ('DmapArray' if isarr else 'DmapScalar'):
                return 'record %d: %r became a %s' % (i, n, type(s).__name__)
            if s.name != n:
                return 'record %d: %r is named %r' % (i, n, s.name)
            c = code_of(v)
            if s.data_type != c or s.data_type_fmt != dc.LETTER[c]:
                return 'record %d: %r has type %r/%r instead of %d/%s' % (i, n, s.data_type, s.data_type_fmt, c,
                                                                         dc.LETTER[c])
            if isarr and (s.dimension != v.ndim or list(s.shape) != list(v.shape)):
                return 'record %d: %r has rank %r shape %r instead of %r' % (i, n, s.dimension, s.shape, v.shape)
            d = diff_value(n, v, s.value)
            if d:
                return 'record %d: %s' % (i, d)
    return None


def diff_back(recs, out):
    if len(recs) != len(out):
        return '%d records instead of %d' % (len(out), len(recs))
    for i, (g, o) in enumerate(zip(recs, out)):
        if list(o.keys()) != list(g.keys()):
            return 'record %d: fields %r instead of %r' % (i, list(o.keys()), list(g.keys()))
        for n, v in g.items():
            d = diff_value(n, v, o[n])
            if d:
                return 'record %d: %s' % (i, d)
    return None


def unsupported():
    yield 'None', None
    yield 'True', True
    yield 'False', False
    yield 'bytes', b'ab'
    yield 'bytearray', bytearray(b'a')
    yield 'complex', 1j
    yield 'dict', {'a': 1}
    yield 'set', {1, 2}
    yield 'object', object()
    yield 'type', int
    yield 'float16', np.float16(1.5)
    yield 'bool_', np.bool_(True)
    yield 'complex64', np.complex64(1 + 1j)
    yield 'complex128', np.complex128(1 + 1j)
    yield 'datetime64', np.datetime64('2020-01-01')
    yield 'bytes_', np.bytes_(b'ab')
    if np.dtype(np.longdouble).itemsize != 8:
        yield 'longdouble', np.longdouble(1.5)
        yield 'longdouble array', np.ones(2, np.longdouble)
    for dt in ('?', 'f2', 'c8', 'c16', 'U3', 'S3', 'O', 'M8[s]', 'm8[s]', 'i4,f4'):
        for shp in ((2,), (1, 2)):
            yield 'array of %s %r' % (dt, shp), np.zeros(shp, np.dtype(dt))
    yield 'list of text', ['a', 'b']
    yield 'list of bool', [True, False]
    yield 'list of complex', [1j, 2]
    yield 'list of None', [None]
    yield 'list of dict', [{}]
    yield 'list of mixed', [1, 'a']
    yield 'ragged list', [[1, 2], [3]]


def cases(tier):
    for c in dspace.cases(tier):
        yield c
    for i in range(4):
        yield ['unsupported', i, tier]
    yield ['order']
    yield ['plainlists']
    yield ['empty']


def outcome(f):
    try:
        return f(), None
    except Exception as err:
        return None, 'raised %s: %s' % (type(err).__name__, err)


def check(ctx, key, given):
    from pydarnio import dict2dmap, dmap2dict
    before = snap(given)
    out, err = outcome(lambda: dict2dmap(given))
    ctx.ev(('structures', key))
    ctx.sample(key)
    d = err or diff_struct(list(given), out)
    if d:
        ctx.bad('structures:%r' % (key,), 'dict2dmap of %r: %s' % (key, d))
        return None
    if snap(given) != before:
        ctx.bad('argument:%r' % (key,), 'dict2dmap altered its argument, %r' % (key,))
        return None
    before = snap(out)
    back, err = outcome(lambda: dmap2dict(out))
    ctx.ev(('dicts', key))
    d = err or diff_back(list(given), back)
    if d:
        ctx.bad('dicts:%r' % (key,), 'dmap2dict(dict2dmap) of %r: %s' % (key, d))
    elif snap(out) != before:
        ctx.bad('argument2:%r' % (key,), 'dmap2dict altered its argument, %r' % (key,))
    return out


def run(case, ctx):
    from pydarnio import DmapRead, DmapWrite, dict2dmap, dmap2dict
    if case[0] == 'unsupported':
        return refused(case[1], case[2], ctx)
    if case[0] == 'order':
        return order(ctx)
    if case[0] == 'plainlists':
        return plainlists(ctx)
    if case[0] == 'empty':
        for f in (dict2dmap, dmap2dict):
            for arg in ([], [{}], [{}, {}]):
                out, err = outcome(lambda: f(arg))
                ctx.ev((f.__name__, len(arg)))
                if err or [dict(x) for x in out] != arg:
                    ctx.bad('empty:%s:%d' % (f.__name__, len(arg)), '%s(%r) gives %s' % (f.__name__, arg, err or out))
        return
    for key, ref, given, form in dspace.expand(case):
        if form == 'dict':
            check(ctx, key, given)
        if case[0] == 'lists' and len(key[1]) > 3:
            continue
        want = dc.encode(ref)
        structs, err = outcome(lambda: given if form == 'dmap' else parsed(DmapRead, want))
        if err:
            ctx.bad('read:%r' % (key,), 'reading the encoding of %r: %s' % (key, err))
            continue
        before = snap(structs)
        dicts, err = outcome(lambda: dmap2dict(structs))
        ctx.ev(('read', key))
        d = err or dc.diff_dicts(ref, dicts)
        if d:
            ctx.bad('fromread:%r' % (key,), 'dmap2dict of the structures of %r: %s' % (key, d))
            continue
        if snap(structs) != before:
            ctx.bad('argument3:%r' % (key,), 'dmap2dict altered its argument, %r' % (key,))
        again, err = outcome(lambda: dict2dmap(dicts))
        ctx.ev(('again', key))
        d = err or dc.diff_dmap(ref, again)
        if d:
            ctx.bad('again:%r' % (key,), 'dict2dmap(dmap2dict) of %r: %s' % (key, d))
            continue
        got, err = outcome(lambda: DmapWrite(again).write_dmap_stream())
        if err or bytes(got) != want:
            ctx.bad('bytes:%r' % (key,), 'the structures of %r converted twice encode to other bytes: %s' % (
                key, err or 'different'))


def parsed(DmapRead, data):
    r = DmapRead(data, True)
    r.read_records()
    return r.get_dmap_records


def order(ctx):
    """Every order of scalar and array fields (the writer would sort them)."""
    flds = [('i', 5), ('n', np.int16(-4)), ('t', 'text'), ('x', 2.5), ('a', np.arange(3)),
            ('b', np.ones((2, 2), 'f4')), ('l', [1, 2])]
    for k in range(1, 8):
        for p in itertools.permutations(flds, k):
            if k == 7 and p[0][0] > 'b':
                continue
            check(ctx, ('order', tuple(n for n, _ in p)), [dict(p)])
    for cls in (dict, collections.OrderedDict):
        recs = [cls(flds[i:] + flds[:i]) for i in range(7)]
        for seq in (list, tuple, collections.deque):
            check(ctx, ('recs', cls.__name__, seq.__name__), seq(recs))


def plainlists(ctx):
    """Nested lists of every shape up to 3x3x3 of whole and real numbers."""
    for r in (1, 2, 3):
        for shp in itertools.product((1, 2, 3), repeat=r):
            n = int(np.prod(shp))
            for nm, vals in (('int', [3 * i - 4 for i in range(n)]), ('float', [i / 3 - 1 for i in range(n)]),
                             ('mixed', [i if i % 2 else i + .5 for i in range(n)]),
                             ('big', [2 ** 40 + i for i in range(n)])):
                v = np.array(vals).reshape(shp)
                check(ctx, ('list', nm, shp), [{'l': v.tolist(), 'v': 1}])
            for c in dc.NUMERIC:
                # lists of numpy numbers keep the type numpy gives them
                w = dc.cells(c, n)
                lst = [w[i] for i in range(n)]
                if r == 1:
                    check(ctx, ('nplist', c, shp), [{'l': lst}])
                elif r == 2:
                    check(ctx, ('nplist', c, shp), [{'l': [lst[i * shp[1]:(i + 1) * shp[1]]
                                                          for i in range(shp[0])]}])


def refused(part, tier, ctx):
    from pydarnio import dict2dmap
    good = [('i', 5), ('t', 'text'), ('a', np.arange(3)), ('b', np.ones((2, 2), 'f4')), ('l', [1, 2])]
    for k, (nm, bad) in enumerate(unsupported()):
        if k % 4 != part:
            continue
        for n in range(0, 5):
            for others in itertools.permutations(good, n) if n < 3 or tier == 'thorough' else itertools.combinations(good, n):
                for pos in range(n + 1):
                    fl = list(others[:pos]) + [('bad', bad)] + list(others[pos:])
                    for rec in range(3):
                        recs = [dict(good), dict(good)]
                        recs.insert(rec, dict(fl))
                        out, err = outcome(lambda: dict2dmap(recs))
                        key = (nm, tuple(x[0] for x in fl), rec)
                        ctx.ev(('refused', key))
                        ctx.sample(key)
                        if err is None:
                            ctx.bad('refused:%r' % (key,), 'a record with the unsupported value %s is accepted: %r' % (
                                nm, out[rec].get('bad') if rec < len(out) else out))
                            return
                        if n > 2 and tier == 'quick':
                            break
