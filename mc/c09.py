"""C09: Borealis array files round-trip."""
import itertools
from collections import OrderedDict
import numpy as np
import bmodel as M
import bfile as bf
from snap import snap

PID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of versions x file types x record mixes x compressions x structure '
             'arguments x value alphabets on the real reader and writer, compared with an independent HDF5 codec')
RULE = ('each array data set is written by the library and read by the library and by the reference codec, and written '
        'by the reference codec and read by the library; all fields, types, shapes and values must agree; non-trivial '
        'when a file was written or read')
ASSUMPTIONS = ['HDF5/h5py as installed; compressions None, gzip, lzf', 'text without NUL characters',
               'field tables transcribed in mc/bmodel.py; bounded value alphabets',
               'a file-wide int64 pulse_phase_offset of two values marks the known damage of early files and is read '
               'as empty']
COMPR = [None, 'gzip', 'lzf']
SUFFIXES = ['.1-61-gc13ab34', '', '.0', '-dirty', '.10', '-5-gabcdef']


def cases(tier):
    for v in M.VERSIONS:
        for ft in M.FILETYPES:
            for gi in range(len(bf.geo_sets())):
                yield ['geo', v, ft, gi]
            yield ['text', v, ft, tier]
            yield ['number', v, ft, tier]
            yield ['layout', v, ft]
            if tier == 'thorough':
                yield ['texts2', v, ft]
                for n in (1, 2, 3):
                    yield ['geoall', v, ft, n]


class Trip:
    def __init__(self, ctx, v, ft):
        self.ctx, self.v, self.ft = ctx, v, ft
        self.n = 0

    def bad(self, key, text):
        self.ctx.bad('%s:%s:%s' % (self.v, self.ft, key), '%s %s %s: %s' % (self.v, self.ft, key, text))

    def both(self, key, data, compr=('default',), structs=(None, 'array'), ref=True, rewrite=False):
        import pydarnio as P
        ctx, ft = self.ctx, self.ft
        for c, s in itertools.product(compr, structs):
            k = '%s compression=%s structure=%s' % (key, c, s)
            ctx.ev('%s %s %s' % (self.v, ft, k))
            ctx.sample('%s %s %s' % (self.v, ft, k))
            fn = ctx.path()
            before = snap(data)
            try:
                kw = {} if c == 'default' else {'hdf5_compression': c}
                w = P.BorealisWrite(fn, data, ft, **kw) if s is None else P.BorealisWrite(fn, data, ft, s, **kw)
            except Exception as e:
                self.bad(k, 'writing raised %s: %s' % (type(e).__name__, str(e)[-300:]))
                continue
            if snap(data) != before:
                self.bad(k, 'the data given to the writer were changed')
            if w.borealis_file_structure != 'array':
                self.bad(k, 'structure %r' % w.borealis_file_structure)
            d = bf.same_fields(data, bf.read_array(fn))
            if d:
                self.bad(k, 'file written: ' + d)
            self.read(k, fn, data, s)
        if ref:
            kinds = ((None, False), ('gzip', False), (None, True))
            if ref == 'one':
                self.n += 1
                kinds = kinds[self.n % 3:][:1]
            for c, legacy in kinds:
                fn = ctx.path()
                bf.write_array(fn, data, c, legacy)
                for s in structs:
                    k = '%s reference file compression=%s legacy=%s structure=%s' % (key, c, legacy, s)
                    ctx.ev('%s %s %s' % (self.v, ft, k))
                    got = self.read(k, fn, data, s)
                if rewrite and got is not None:
                    fn2 = ctx.path()
                    try:
                        P.BorealisWrite(fn2, got, ft, 'array')
                        d = bf.same_fields(data, bf.read_array(fn2))
                    except Exception as e:
                        d = 'raised %s: %s' % (type(e).__name__, str(e)[-300:])
                    if d:
                        self.bad('rewrite ' + k, d)

    def read(self, k, fn, data, s):
        import pydarnio as P
        h = bf.digest(fn)
        try:
            r = P.BorealisRead(fn, self.ft) if s is None else P.BorealisRead(fn, self.ft, s)
            got = r.arrays
        except Exception as e:
            self.bad(k, 'reading raised %s: %s' % (type(e).__name__, str(e)[-300:]))
            return None
        d = bf.same_fields(data, got)
        if d:
            self.bad(k, d)
        if r.borealis_file_structure != 'array':
            self.bad(k, 'structure detected as %r' % r.borealis_file_structure)
        if bf.digest(fn) != h:
            self.bad(k, 'the file read was changed')
        return got


def run(case, ctx):
    fam, v, ft = case[:3]
    t = Trip(ctx, v, ft)
    ref = 'one' if case[-1] == 'quick' else True
    compr = lambda: COMPR if ref is True else [COMPR[t.n % 3]]
    at, ds = M.array_fields(v, ft)

    def arr(geos, sh=None, **kw):
        return M.to_array_data(v, ft, M.make_records(v, ft, geos, sh, **kw))

    def base():
        return arr(bf.geo_sets()[3])
    if fam == 'geo':
        geos = bf.geo_sets()[case[3]]
        for ppo in ('zeros', 'vals1', 'vals'):
            t.both('mix %d ppo %s' % (case[3], ppo), arr(geos, ppo=ppo), COMPR + ['default'], rewrite=True)
        if case[3] == 2:
            for sfx in SUFFIXES:
                t.both('hash suffix %r' % sfx, arr(geos, hash_suffix=sfx))
            for sh in (M.Shape(1, 1, 1, 1, 1, 1), M.Shape(2, 1, 5, 1, 3, 7), M.Shape(20, 2, 1, 4, 1, 2)):
                t.both('shape %s' % list(vars(sh).values()), arr(geos, sh), [None, 'default'])
            d = base()
            t.both('plain dict', dict(d), [None])
            t.both('reversed dict', OrderedDict(reversed(list(d.items()))), [None])
    elif fam == 'text':
        for f in [f for f, k in at.items() if k is str and f != 'borealis_git_hash']:
            for x in bf.TEXTS:
                d = base()
                d[f] = x
                t.both('%s=%r' % (f, x[:20] + str(len(x))), d, structs=(None,), ref=ref)
        for f in [f for f, k in ds.items() if k in (np.str_, np.bytes_, str)]:
            n = base()[f].shape[0]
            per = f in M.per_record(v, ft)
            k = np.bytes_ if ds[f] is np.bytes_ else np.str_
            for xs in (['a'] * n, [''] * n, ['a', ''] * n, ['main', 'x' * 300] * n, ['z' * 65] * n) + (
                    (['\u00fc', '\u65e5\u672c'] * n, ['\U0001F4E1', 'a'] * n) if k is np.str_ else ()):
                d = base()
                d[f] = np.array(xs[:n] if per else xs).astype(k)
                t.both('%s=%r' % (f, [x[:9] for x in xs]), d, compr(), structs=(None,), ref=ref)
    elif fam == 'number':
        for f, k in at.items():
            if k is not str:
                for x in bf.numbers(k):
                    d = base()
                    d[f] = x
                    t.both('%s=%r' % (f, x), d, structs=(None,), ref=ref)
        for f, k in ds.items():
            if k in (np.str_, np.bytes_, str):
                continue
            d = base()
            x = np.array(bf.numbers(k), dtype=k)
            if f in M.per_record(v, ft) or f in ('num_beams', 'num_blanked_samples'):
                shape = d[f].shape
                for off in range(len(x)):
                    y = np.resize(np.roll(x, off), shape).astype(k)
                    d[f] = y
                    t.both('%s=extremes %d' % (f, off), d, [COMPR[off % 3]], structs=('array',), ref=ref)
                if len(shape) > 1 and f not in ('sqn_timestamps',):
                    d[f] = np.zeros((shape[0],) + (0,) * (len(shape) - 1), dtype=k)
                    t.both('%s=empty' % f, d, compr(), structs=('array',), ref=ref)
            else:
                for y in (x, np.zeros(0, dtype=k), x[:1], x.reshape(1, -1), x.reshape(-1, 1)):
                    d[f] = y
                    t.both('%s=%s' % (f, y.shape), d, compr(), structs=('array',), ref=ref)
    elif fam == 'layout':
        for f, k in ds.items():
            d = base()
            x = d[f]
            variants = {}
            big = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
            big[::2] = x
            variants['strided'] = big[::2]
            variants['reversed'] = np.ascontiguousarray(x[::-1])[::-1]
            if x.dtype.kind != 'S':
                variants['swapped'] = x.astype(x.dtype.newbyteorder())
            variants['fortran'] = np.asfortranarray(x)
            ro = x.copy()
            ro.flags.writeable = False
            variants['readonly'] = ro
            for n, y in variants.items():
                d[f] = y
                t.both('%s %s' % (f, n), d, structs=('array',), ref=False)
    elif fam == 'texts2':
        fs = [f for f, k in at.items() if k is str and f != 'borealis_git_hash']
        for f, g in itertools.combinations(fs, 2):
            for x, y in itertools.product(bf.TEXTS, bf.TEXTS):
                d = base()
                d[f], d[g] = x, y
                t.both('%s=%r,%s=%r' % (f, x[:9] + str(len(x)), g, y[:9] + str(len(y))), d, structs=('array',),
                       ref=False)
    elif fam == 'geoall':
        one = [M.Geo(*g) for g in itertools.product((1, 2, 3), (1, 2), (0, 1, 2))]
        if case[3] == 3:
            one = one[::2]
        for gs in itertools.product(one, repeat=case[3]):
            t.both('geo %s' % [g.tup()[:3] for g in gs], arr(gs, ppo='vals'), structs=('array',), ref=False)
