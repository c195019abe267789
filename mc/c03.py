"""C03: damaged DMAP data is never silently mis-read."""
import inspect
import itertools
import struct
import dmapcodec as dc
import dspace

PID = 'C03'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive fault enumeration (every truncation, every single-byte change, every torn '
             'splice, all field/boundary-value combinations up to a bound) over DMAP streams fed to the real reader, '
             'compared with an independent reference decoder')
RULE = ('each damaged stream is read by the real reader and checked with the integrity test; verdict and values must '
        'agree with the reference decoder; non-trivial when the stream differs from its undamaged base')
ASSUMPTIONS = ['little-endian host', 'record identifiers carry no data and are not validated',
               'streams using parts of the format the library documents as unsupported (arrays of text, records '
               'without scalars or arrays, rank above 32, several fields of one name) may be refused or read']

# reading always terminates: a case takes seconds
CASE_LIMIT = {'quick': 150, 'thorough': 3000}

BOUND = [-2 ** 31, -2 ** 31 + 1, -65536, -2, -1, 0, 1, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100,
         255, 256, 65535, 65536, 65537, 2 ** 24, 2 ** 30, 2 ** 31 - 2, 2 ** 31 - 1]
SMALL = [0, 1, 2, 3, 4, 8, 9, 10, 16, 19, 20, 0x61, 0x7f, 0x80, 0xc3, 0xff]


def bases():
    """Undamaged record lists with the positions of their int32 fields."""
    out = []
    r = [dspace.build([dspace.field(k, 'f%d' % j, j) for j, k in enumerate(ks)])[0] for ks in (
        [('s', 3), ('a', 2)],
        [('s', 9), ('s', 1), ('a', 1), ('a', 8)],
        [('s', 8), ('a', 10), ('a', 4)],
    )]
    out.append([r[0]])
    out.append([r[1]])
    out.append([r[0], r[2]])
    allk = [dspace.field(('s', c), 's%d' % c, c)[0] for c in dc.CODES]
    alla = [dspace.field(('a', c), 'a%d' % c, c)[0] for c in dc.NUMERIC]
    out.append([(allk, alla)])
    out.append([([('n', 2, 0)], [('slist', 2, (0,), b''), ('p', 4, (1,), b'\0\0\0\0')]), r[0]])
    out.append([r[0], r[1], r[0]])
    return out


def int_fields(recs):
    """Offsets of all int32 header / dimension fields and type bytes."""
    ints, types = [], []
    pos = 0
    for sc, ar in recs:
        ints += [pos, pos + 4, pos + 8, pos + 12]
        p = pos + 16
        for s in sc:
            types.append(p + len(s[0].encode()) + 1)
            p += len(dc.encode_scalar(*s))
        for a in ar:
            q = p + len(a[0].encode()) + 1
            types.append(q)
            ints += [q + 1 + 4 * i for i in range(len(a[2]) + 1)]
            p += len(dc.encode_array(*a))
        pos = p
    return ints, types


def cases(tier):
    for i, recs in enumerate(bases()):
        n = len(dc.encode(recs))
        yield ['truncate', i]
        for lo in range(0, n, 40):
            yield ['bytes', i, lo, min(n, lo + 40)]
        yield ['indel', i]
        ints, types = int_fields(recs)
        yield ['fields1', i]
        if i != 3 or tier == 'thorough':
            for k in range(len(ints)):
                yield ['fields2', i, k]
        if i in ((0, 1) if tier == 'quick' else (0, 1, 2, 4, 5)):
            for lo in range(0, n, 4):
                yield ['bytes2', i, lo, min(n, lo + 4)]
        for j in range(len(bases())):
            yield ['splice', i, j]
    if tier == 'thorough':
        ints, types = int_fields(bases()[0])
        for k in itertools.combinations(range(len(ints)), 2):
            yield ['fields3', 0] + list(k)
    for b in range(0, 256, 16):
        yield ['short', b]
    yield ['headers', 1 if tier == 'quick' else 2]
    yield ['padded']
    yield ['counts']


def allowed():
    from pydarnio import dmap_exceptions
    return tuple(c for _, c in inspect.getmembers(dmap_exceptions, inspect.isclass)
                 if issubclass(c, Exception) and c.__module__ == dmap_exceptions.__name__)


class Checker:
    def __init__(self, ctx):
        from pydarnio import DmapRead
        self.ctx, self.R, self.ok = ctx, DmapRead, allowed()

    def check(self, key, data, base=None, file=None):
        ctx = self.ctx
        try:
            ref, verdict = dc.decode(data), 'ok'
        except dc.Malformed as e:
            ref, verdict = None, 'malformed (%s)' % e
        except dc.Unsupported as e:
            ref, verdict = None, 'unsupported (%s)' % e
        ctx.ev(None if base is not None and data == base else key)
        ctx.count(verdict.split()[0] + '_streams')
        err = None
        rd = None
        try:
            if file:
                with open(file, 'wb') as f:
                    f.write(data)
                rd = self.R(file)
            else:
                rd = self.R(data, True)
            got = rd.read_records()
        except Exception as e:
            err = e
        k = '%s:%s' % (key[0], ','.join(map(str, key[1:])))
        if err is not None and not isinstance(err, self.ok):
            return ctx.bad(k, '%r %s: raised %s (%s), not a DMAP error' % (key, verdict, type(err).__name__, err),
                           {'data': data.hex()})
        if verdict == 'ok':
            d = repr(err) if err is not None else dc.diff_dicts(ref, got)
            if d:
                return ctx.bad(k, '%r is well formed, but: %s' % (key, d), {'data': data.hex()})
        elif verdict[0] == 'm' and err is None:
            return ctx.bad(k, '%r is %s, but %d records were returned' % (key, verdict, len(got)),
                           {'data': data.hex()})
        if len(data) == 0:
            return
        want = dc.chain_ok(data)
        try:
            self.R(data, True).test_initial_data_integrity()
            have = True
        except self.ok:
            have = False
        except Exception as e:
            return ctx.bad('integrity:' + k, '%r: the integrity check raised %s (%s)' % (
                key, type(e).__name__, e), {'data': data.hex()})
        if have != want:
            ctx.bad('integrity:' + k, '%r: integrity check %s, block sizes %s' % (
                key, 'accepts' if have else 'refuses', 'chain' if want else 'do not chain'),
                {'data': data.hex()})


def run(case, ctx):
    c = Checker(ctx)
    fam = case[0]
    bs = bases()
    if fam == 'short':
        if case[1] == 0:
            c.check(('short',), b'')
        for a in range(case[1], case[1] + 16):
            c.check(('short', a), bytes([a]))
            for b in range(256):
                c.check(('short', a, b), bytes([a, b]))
        return
    if fam == 'headers':
        vals = [-1, 0, 1, 2, 15, 16, 17, 18, 20, 24, 32, 2 ** 31 - 1, -2 ** 31]
        for h in itertools.product(vals, repeat=3):
            for tail in (b'', b'\0', b'a\0\x03', b'a\0\x01\x05', b'a\0\x01\x05b\0\x01\x01\0\0\0\x01\0\0\0\x07'):
                d = struct.pack('=iiii', 65537, *h) + tail
                c.check(('headers',) + h + (tail.hex(),), d)
                if case[1] > 1:
                    for h2 in vals:
                        for cut in range(1, 16):
                            c.check(('headers',) + h + (tail.hex(), h2, cut),
                                    d + struct.pack('=iiii', 1, h2, 1, 1)[:cut])
        return
    if fam == 'counts':
        # records holding only scalars / only arrays, with every small declared number of each: a negative count
        # reads as "none" in a careless reader and leaves everything else of the record consistent
        sc = [dspace.field(('s', k), 's%d' % k, k)[0] for k in (3, 9, 1)]
        ar = [dspace.field(('a', k), 'a%d' % k, k)[0] for k in (2, 8, 1)]
        ok = dc.encode_record(sc[:1], ar[:1])
        for a in range(4):
            for b in range(4):
                raw = dc.encode_record(sc[:a], ar[:b])
                for na, nb in itertools.product([-2 ** 31, -65536, -256] + list(range(-6, 8)), repeat=2):
                    d = raw[:8] + struct.pack('=ii', na, nb) + raw[16:]
                    for before, after in ((b'', b''), (ok, b''), (b'', ok)):
                        c.check(('counts', a, b, na, nb, len(before), len(after)), before + d + after, before + raw + after)
        return
    if fam == 'padded':
        for i, recs in enumerate(bs):
            d = dc.encode(recs)
            for pad in (b'\0', b'\0' * 4, b'\0' * 16, b'\xff' * 8, d[:4], d[:16], b'a\0\x01\0'):
                c.check(('suffix', i, pad.hex()), d + pad)
                c.check(('prefix', i, pad.hex()), pad + d)
            # declared block size too large / too small by k, with and without bytes to match
            for k in range(-20, 21):
                for n in range(len(recs)):
                    out = b''
                    for m, (s, a) in enumerate(recs):
                        raw = dc.encode_record(s, a)
                        if m == n:
                            raw = raw[:4] + struct.pack('=i', len(raw) + k) + raw[8:]
                        out += raw + (b'\0' * k if m == n and k > 0 else b'')
                    c.check(('resize', i, n, k), out)
            for ident in (0, 1, -1, 65536, 65538, 2 ** 31 - 1):
                c.check(('ident', i, ident), b''.join(dc.encode_record(s, a, ident=ident) for s, a in recs))
        return
    recs = bs[case[1]]
    data = dc.encode(recs)
    n = len(data)
    ints, types = int_fields(recs)
    if fam == 'truncate':
        for k in range(n + 1):
            c.check(('truncate', case[1], k), data[:k], data)
            c.check(('truncate-file', case[1], k), data[:k], data, file=ctx.path('t.dmap'))
        for k in range(n + 1):
            c.check(('head-lost', case[1], k), data[k:], data)
    elif fam == 'bytes':
        for p in range(case[2], case[3]):
            for v in range(256):
                c.check(('byte', case[1], p, v), data[:p] + bytes([v]) + data[p + 1:], data)
    elif fam == 'bytes2':
        for p in range(case[2], case[3]):
            for q in range(p + 1, n):
                for v, w in itertools.product(SMALL, SMALL):
                    b = bytearray(data)
                    b[p], b[q] = v, w
                    c.check(('byte2', case[1], p, v, q, w), bytes(b), data)
    elif fam == 'indel':
        for p in range(n + 1):
            for v in SMALL:
                c.check(('insert', case[1], p, v), data[:p] + bytes([v]) + data[p:], data)
            for k in range(1, 13):
                if p + k <= n:
                    c.check(('delete', case[1], p, k), data[:p] + data[p + k:], data)
                    c.check(('double', case[1], p, k), data[:p + k] + data[p:], data)
    elif fam == 'fields1':
        for p in ints:
            old = struct.unpack_from('=i', data, p)[0]
            for v in sorted(set(BOUND + [old + d for d in range(-40, 41)] + [old * 2, old * 256, -old])):
                if -2 ** 31 <= v < 2 ** 31:
                    c.check(('field', case[1], p, v), data[:p] + struct.pack('=i', v) + data[p + 4:], data)
        for p, q in itertools.combinations(types, 2):
            for v, w in itertools.product(range(0, 21), repeat=2):
                b = bytearray(data)
                b[p], b[q] = v, w
                c.check(('types', case[1], p, v, q, w), bytes(b), data)
                if len(types) > 10 and v:
                    break
    elif fam in ('fields2', 'fields3'):
        first = case[2:]
        vals = [-2 ** 31, -1, 0, 1, 2, 3, 4, 6, 8, 16, 64, 65536, 2 ** 31 - 1]
        for q in range(case[-1] + 1, len(ints)):
            pos = [ints[k] for k in first] + [ints[q]]
            olds = [struct.unpack_from('=i', data, p)[0] for p in pos]
            sets = [sorted(set(vals + [o + d for d in (-8, -4, -2, -1, 1, 2, 4, 8)])) for o in olds]
            for vs in itertools.product(*sets):
                b = bytearray(data)
                for p, v in zip(pos, vs):
                    if not -2 ** 31 <= v < 2 ** 31:
                        break
                    struct.pack_into('=i', b, p, v)
                else:
                    c.check((fam, case[1], tuple(pos), vs), bytes(b), data)
    elif fam == 'splice':
        other = dc.encode(bs[case[2]])
        step = 1 if n * len(other) < 40000 else 3
        for i in range(0, n + 1, step):
            for j in range(0, len(other) + 1, step):
                c.check(('splice', case[1], i, case[2], j), data[:i] + other[j:], data)
