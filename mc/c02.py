"""C02: the bytes written are exactly the DMAP encoding; reading decodes it."""
import struct
import dmapcodec as dc
import dspace

PID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded DMAP record lists; real writer and reader compared '
             'byte for byte with an independent reference codec')
RULE = ('for every record list of the bounded space: the real writer\'s bytes equal the reference encoding, the real '
        'reader decodes the reference bytes to the reference values, and writing those again gives the same bytes; '
        'non-trivial when the stream holds at least one record')
ASSUMPTIONS = ['little-endian host', 'the reference codec (mc/dmapcodec.py) states the DMAP format',
               'the record identifier of written records is 65537; readers ignore it']

def cases(tier):
    yield from dspace.cases(tier)
    yield ['readonly']


def outcome(f):
    try:
        return f(), None
    except Exception as err:
        return None, 'raised %s: %s' % (type(err).__name__, err)


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return 'byte %d: %r... instead of %r...' % (i, bytes(a[i:i + 12]), bytes(b[i:i + 12]))
    return 'length %d instead of %d' % (len(a), len(b))


def run(case, ctx):
    from pydarnio import DmapRead, DmapWrite
    if case[0] == 'readonly':
        return readonly(ctx)
    n = 0
    for key, ref, given, form in dspace.expand(case):
        n += 1
        want = dc.encode(ref)
        got, err = outcome(lambda: DmapWrite(given).write_dmap_stream())
        ctx.ev(key)
        ctx.sample(key)
        if err or bytes(got) != want:
            ctx.bad('write:%r' % (key,), 'writing %r: %s' % (key, err or first_diff(got, want)))
        rd = None

        def read():
            nonlocal rd
            rd = DmapRead(want, True)
            return rd.read_records()
        recs, err = outcome(read)
        d = err or dc.diff_dicts(ref, recs) or dc.diff_dmap(ref, rd.get_dmap_records)
        ctx.ev(('read', key))
        if d:
            ctx.bad('read:%r' % (key,), 'reading the encoding of %r: %s' % (key, d))
            continue
        if case[0] == 'lists' and len(key[1]) > 3:
            continue
        for nm, src in (('dicts', recs), ('structures', rd.get_dmap_records)):
            back, err = outcome(lambda: DmapWrite(src).write_dmap_stream())
            ctx.ev(('rewrite', nm, key))
            if err or bytes(back) != want:
                ctx.bad('rewrite:%s:%r' % (nm, key), 'writing again (%s) %r: %s' % (
                    nm, key, err or first_diff(back, want)))
        if case[0] == 'lists':
            continue
        f = ctx.path('w.dmap')
        _, err = outcome(lambda: DmapWrite(given).write_dmap(f))
        back = None if err else open(f, 'rb').read()
        ctx.ev(('file', key))
        if err or back != want:
            ctx.bad('file:%r' % (key,), 'writing a file, %r: %s' % (key, err or first_diff(back, want)))
        f = ctx.path('r.dmap')
        open(f, 'wb').write(want)
        recs, err = outcome(lambda: DmapRead(f).read_records())
        d = err or dc.diff_dicts(ref, recs)
        if d:
            ctx.bad('readfile:%r' % (key,), 'reading a file, %r: %s' % (key, d))


def readonly(ctx):
    """Well-formed streams that the writer itself never produces."""
    from pydarnio import DmapRead, DmapWrite
    base = dspace.record(2)[0]
    one = dspace.record(0)[0]
    for typ in (bytes, bytearray, memoryview):
        data = dc.encode([base, one, base])
        recs, err = outcome(lambda: DmapRead(typ(data), True).read_records())
        d = err or dc.diff_dicts([base, one, base], recs)
        ctx.ev(('input', typ.__name__))
        if d:
            ctx.bad('input:%s' % typ.__name__, 'stream given as %s: %s' % (typ.__name__, d))
    # an empty slist is part of real SuperDARN files
    for c in dc.NUMERIC:
        for rest in (0, 1):
            ar = [('slist', c, (0,), b'')] + [one[1][0]] * rest
            ref = [(one[0], ar), one]
            recs, err = outcome(lambda: DmapRead(dc.encode(ref), True).read_records())
            d = err or dc.diff_dicts(ref, recs)
            ctx.ev(('slist', c, rest))
            if d:
                ctx.bad('slist:%d' % c, 'empty slist of type %d: %s' % (c, d))
                continue
            back, err = outcome(lambda: DmapWrite(recs).write_dmap_stream())
            if err or bytes(back) != dc.encode(ref):
                ctx.bad('slist-write:%d' % c, 'writing an empty slist of type %d: %s' % (
                    c, err or first_diff(back, dc.encode(ref))))
    # every bit pattern of the narrow float values, NaN payloads included
    for code, fmt, pats in ((4, 'I', [s << 31 | e << 23 | m for s in (0, 1) for e in range(256)
                                     for m in (0, 1, 0x400000, 0x7fffff)]),
                            (8, 'Q', [s << 63 | e << 52 | m for s in (0, 1) for e in range(0, 2048, 1)
                                     for m in (0, 1, 1 << 51, (1 << 52) - 1)])):
        raw = b''.join(struct.pack('=' + fmt, p) for p in pats)
        ref = [([('v', 3, 1)], [('z', code, (len(pats),), raw)])]
        data = dc.encode(ref)
        recs, err = outcome(lambda: DmapRead(data, True).read_records())
        d = err or dc.diff_dicts(ref, recs)
        ctx.ev(('patterns', code), n=len(pats))
        if d:
            ctx.bad('patterns:%d' % code, d)
            continue
        back, err = outcome(lambda: DmapWrite(recs).write_dmap_stream())
        if err or bytes(back) != data:
            ctx.bad('patterns-write:%d' % code, err or first_diff(back, data))
