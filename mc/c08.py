"""C08: Borealis site files round-trip."""
import itertools
from collections import OrderedDict
import numpy as np
import bmodel as M
import bfile as bf
from snap import snap

PID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of versions x file types x record mixes x compressions x structure '
             'arguments x value alphabets on the real reader and writer, compared with an independent HDF5 codec')
RULE = ('each site data set is written by the library and read by the library and by the reference codec, and written '
        'by the reference codec and read by the library; all fields, types, shapes and values must agree; non-trivial '
        'when a file was written or read')
ASSUMPTIONS = ['HDF5/h5py as installed; compressions None, gzip, lzf', 'text without NUL characters',
               'field tables transcribed in mc/bmodel.py; bounded value alphabets']

COMPR = [None, 'gzip', 'lzf']
SUFFIXES = ['.1-61-gc13ab34', '', '.0', '-dirty', '.10', '-5-gabcdef']


def cases(tier):
    for v in M.VERSIONS:
        for ft in M.ALLTYPES:
            for gi in range(len(bf.geo_sets())):
                yield ['geo', v, ft, gi]
            yield ['text', v, ft, tier]
            yield ['number', v, ft, tier]
            yield ['layout', v, ft]
            yield ['order', v, ft]
            if tier == 'thorough':
                yield ['texts2', v, ft]
                for n in (1, 2, 3):
                    yield ['geoall', v, ft, n]


class Trip:
    def __init__(self, ctx, v, ft):
        self.ctx, self.v, self.ft = ctx, v, ft
        self.n = 0

    def bad(self, key, text):
        self.ctx.bad('%s:%s:%s' % (self.v, self.ft, key), '%s %s %s: %s' % (self.v, self.ft, key, text))

    def both(self, key, recs, compr=('gzip',), structs=(None, 'site'), ref=True, rewrite=False):
        import pydarnio as P
        ctx, ft = self.ctx, self.ft
        for c, s in itertools.product(compr, structs):
            k = '%s compression=%s structure=%s' % (key, c, s)
            ctx.ev('%s %s %s' % (self.v, ft, k))
            ctx.sample('%s %s %s' % (self.v, ft, k))
            fn = ctx.path()
            before = snap(recs)
            try:
                kw = {} if c == 'default' else {'hdf5_compression': c}
                if s is None:
                    w = P.BorealisWrite(fn, recs, ft, **kw)
                else:
                    w = P.BorealisWrite(fn, recs, ft, s, **kw)
            except Exception as e:
                self.bad(k, 'writing raised %s: %s' % (type(e).__name__, str(e)[-300:]))
                continue
            if snap(recs) != before:
                self.bad(k, 'the records given to the writer were changed')
            if w.borealis_file_structure != 'site':
                self.bad(k, 'structure %r' % w.borealis_file_structure)
            d = bf.same_site(recs, bf.read_site(fn))
            if d:
                self.bad(k, 'file written: ' + d)
            self.read(k, fn, recs, s)
        if ref:
            kinds = ((None, False), ('gzip', False), (None, True))
            if ref == 'one':
                self.n += 1
                kinds = kinds[self.n % 3:][:1]
            for c, legacy in kinds:
                fn = ctx.path()
                bf.write_site(fn, recs, c, legacy)
                for s in structs:
                    k = '%s reference file compression=%s legacy=%s structure=%s' % (key, c, legacy, s)
                    ctx.ev('%s %s %s' % (self.v, ft, k))
                    got = self.read(k, fn, recs, s)
                if rewrite and got is not None:
                    fn2 = ctx.path()
                    try:
                        P.BorealisWrite(fn2, got, ft, 'site')
                        d = bf.same_site(recs, bf.read_site(fn2))
                    except Exception as e:
                        d = 'raised %s: %s' % (type(e).__name__, str(e)[-300:])
                    if d:
                        self.bad('rewrite ' + k, d)

    def read(self, k, fn, recs, s):
        import pydarnio as P
        h = bf.digest(fn)
        try:
            r = P.BorealisRead(fn, self.ft) if s is None else P.BorealisRead(fn, self.ft, s)
            got = r.records
        except Exception as e:
            self.bad(k, 'reading raised %s: %s' % (type(e).__name__, str(e)[-300:]))
            return None
        d = bf.same_site(recs, got)
        if d:
            self.bad(k, d)
        if list(r.record_names) != sorted(recs):
            self.bad(k, 'record_names %r' % (r.record_names,))
        if r.borealis_file_structure != 'site':
            self.bad(k, 'structure detected as %r' % r.borealis_file_structure)
        if bf.digest(fn) != h:
            self.bad(k, 'the file read was changed')
        return got


def run(case, ctx):
    fam, v, ft = case[:3]
    t = Trip(ctx, v, ft)
    ref = 'one' if case[-1] == 'quick' else True
    compr = lambda: COMPR if ref is True else [COMPR[t.n % 3]]
    at, ds = M.site_fields(v, ft)
    base = lambda **kw: M.make_records(v, ft, bf.geo_sets()[3], **kw)
    if fam == 'geo':
        geos = bf.geo_sets()[case[3]]
        for ppo in ('zeros', 'vals1', 'vals'):
            recs = M.make_records(v, ft, geos, ppo=ppo)
            t.both('mix %d ppo %s' % (case[3], ppo), recs, COMPR + ['default'], rewrite=True)
        if case[3] == 2:
            for sfx in SUFFIXES:
                t.both('hash suffix %r' % sfx, M.make_records(v, ft, geos, hash_suffix=sfx))
            for sh in (M.Shape(1, 1, 1, 1, 1, 1), M.Shape(2, 1, 5, 1, 3, 7), M.Shape(20, 2, 1, 4, 1, 2)):
                t.both('shape %s' % list(vars(sh).values()), M.make_records(v, ft, geos, sh), [None, 'gzip'])
    elif fam == 'text':
        for f in [f for f, k in at.items() if k is str and f != 'borealis_git_hash']:
            for x in bf.TEXTS:
                recs = base()
                for r in recs.values():
                    r[f] = x
                t.both('%s=%r' % (f, x[:20] + str(len(x))), recs, structs=(None,), ref=ref)
        for f in [f for f, k in ds.items() if k in (np.str_, np.bytes_)]:
            for xs in (['a'], ['', ''], ['a', ''], ['main', 'intf', 'x' * 300], ['z' * 65] * 5) + (
                    (['\u00fc', '\u65e5\u672c'], ['\U0001F4E1', 'a']) if ds[f] is np.str_ else ()):
                recs = base()
                for r in recs.values():
                    r[f] = np.array(xs).astype(ds[f])
                t.both('%s=%r' % (f, [x[:9] for x in xs]), recs, compr(), structs=(None,), ref=ref)
    elif fam == 'number':
        for f, k in at.items():
            if k is not str:
                for x in bf.numbers(k):
                    recs = base()
                    list(recs.values())[-1][f] = x
                    t.both('%s=%r' % (f, x), recs, structs=(None,), ref=ref)
        for f, k in ds.items():
            if k in (np.str_, np.bytes_):
                continue
            x = np.array(bf.numbers(k), dtype=k)
            if f == 'pulse_phase_offset':
                # one offset per pulse (per sequence from v0.6)
                for i in range(0, len(x), 2):
                    recs = base()
                    list(recs.values())[0][f] = x[i:i + 2]
                    t.both('%s=%s' % (f, x[i:i + 2]), recs, compr(), structs=('site',), ref=ref)
                continue
            for nm, y in (('extremes', x), ('empty', np.zeros(0, dtype=k))):
                recs = base()
                rec = list(recs.values())[0]
                rec[f] = y
                if f == 'pulses' and 'pulse_phase_offset' in rec:
                    rec['pulse_phase_offset'] = np.zeros(len(y), dtype=np.float32)
                t.both('%s=%s' % (f, nm), recs, compr(), structs=('site',), ref=ref)
    elif fam == 'layout':
        for f, k in ds.items():
            recs = base()
            name = list(recs)[1]
            x = recs[name][f]
            variants = {}
            big = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
            big[::2] = x
            variants['strided'] = big[::2]
            variants['reversed'] = np.ascontiguousarray(x[::-1])[::-1]
            if x.dtype.kind != 'S':
                variants['swapped'] = x.astype(x.dtype.newbyteorder())
            variants['fortran'] = np.asfortranarray(x)
            ro = x.copy()
            ro.flags.writeable = False
            variants['readonly'] = ro
            for n, y in variants.items():
                recs[name] = dict(recs[name])
                recs[name][f] = y
                t.both('%s %s' % (f, n), recs, structs=('site',), ref=False)
    elif fam == 'order':
        geos = bf.geo_sets()[2]
        recs = M.make_records(v, ft, geos)
        for perm in itertools.permutations(list(recs)):
            shuf = OrderedDict((n, dict(reversed(list(recs[n].items())))) for n in perm)
            t.both('order %s' % (perm,), shuf, [None])
            t.both('plain dict order %s' % (perm,), dict(shuf), [None])
        # many records, names of different length
        recs = OrderedDict()
        for i, n in enumerate(['1600000000123', '999', '1600000000124', '7', '0']):
            recs[n] = M.make_record(v, ft, i, M.Geo(1 + i % 3, 1 + i % 2, i % 3))
        t.both('odd names', recs)
    elif fam == 'texts2':
        fs = [f for f, k in at.items() if k is str and f != 'borealis_git_hash']
        for f, g in itertools.combinations(fs, 2):
            for x, y in itertools.product(bf.TEXTS, bf.TEXTS):
                recs = base()
                for r in recs.values():
                    r[f], r[g] = x, y
                t.both('%s=%r,%s=%r' % (f, x[:9] + str(len(x)), g, y[:9] + str(len(y))), recs, structs=('site',),
                       ref=False)
    elif fam == 'geoall':
        one = [M.Geo(*g) for g in itertools.product((1, 2, 3), (1, 2), (0, 1, 2))]
        if case[3] == 3:
            one = one[::2]
        for gs in itertools.product(one, repeat=case[3]):
            t.both('geo %s' % [g.tup()[:3] for g in gs], M.make_records(v, ft, gs, ppo='vals'), structs=('site',),
                   ref=False)
