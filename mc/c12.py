"""C12: Borealis data is accepted exactly when it satisfies its format."""
import itertools
import os
import numpy as np
import bmodel as M
import bfile as bf
from snap import snap

PID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded deviations from every version x file type x structure '
             '(each field removed, each foreign field added, each field given each other type, record counts broken, '
             'in every record position, pairs of deviations, data labelled as another version or type) on the real '
             'readers and writers, judged by an independent table model')
RULE = ('each data set is written with the library and its reference file is read with the library; both verdicts must '
        'equal the model\'s, refusals must list exactly the bad records and fields and leave the destination alone; '
        'non-trivial when the data deviate from a valid set')
ASSUMPTIONS = ['when a record (or array file) breaks several rules any one of them may be reported',
               'data of which the version cannot be told, or with every field missing, may be refused as a structure error',
               'with the structure unspecified any documented Borealis error counts as refusal',
               'the tables in mc/bmodel.py state the formats']

ALT_SCALARS = [np.int8(1), np.uint8(1), np.int16(1), np.uint16(1), np.int32(1), np.uint32(1), np.int64(1), np.uint64(1),
               np.float16(1), np.float32(1), np.float64(1), np.complex64(1), np.bool_(True), 'text']
PY_SCALARS = [1, 1.5, True, None, b'x', [1], (1,), {}, np.str_('x'), np.bytes_(b'x')]
ALT_DTYPES = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float16, np.float32,
              np.float64, np.complex64, np.complex128, np.bool_, np.str_, np.bytes_]


def cases(tier):
    for v in M.VERSIONS:
        quick_ok = v not in ('v0.2', 'v0.3') or tier == 'thorough'
        for ft in M.ALLTYPES:
            for st in ('site', 'array'):
                if st == 'array' and ft == 'rawrf':
                    continue
                yield ['labels', v, ft, st]
                if not quick_ok:
                    yield ['fields', v, ft, st, 'x']
                    continue
                yield ['fields', v, ft, st, 'r']
                yield ['fields', v, ft, st, 'w']
                for part in range(4):
                    yield ['types', v, ft, st, 'r', part, tier]
                yield ['types', v, ft, st, 'w', 0]
                yield ['pairs', v, ft, st]
                if st == 'site':
                    yield ['many', v, ft, st]
                if st == 'array':
                    yield ['counts', v, ft, st]
                if tier == 'thorough':
                    at, ds = tables(v, ft, st)
                    for i in range(len(at) + len(ds)):
                        yield ['allpairs', v, ft, st, i]


def tables(v, ft, st):
    return M.site_fields(v, ft) if st == 'site' else M.array_fields(v, ft)


def base(v, ft, st, n=3):
    recs = M.make_records(v, ft, [M.Geo(2, 1, 1), M.Geo(1, 2, 2), M.Geo(2, 2, 1)][:n])
    return recs if st == 'site' else M.to_array_data(v, ft, recs)


# ------------------------------------------------------------------- model
def kind_ok(t, x, attr, st):
    if attr:
        return type(x) is t
    if not isinstance(x, np.ndarray):
        return False
    if t is str:
        return x.dtype.type is np.str_
    if x.dtype.type is t:
        return True
    return st == 'array' and t is np.bytes_ and x.dtype.type is np.str_


def broken(v, ft, st, d):
    at, ds = tables(v, ft, st)
    out = {}
    miss = (set(at) | set(ds)) - set(d)
    extra = set(d) - set(at) - set(ds)
    wrong = {f for f in at if f in d and not kind_ok(at[f], d[f], True, st)} | \
        {f for f in ds if f in d and not kind_ok(ds[f], d[f], False, st)}
    if miss:
        out['missing'] = miss
    if extra:
        out['extra'] = extra
    if wrong:
        out['type'] = wrong
    if st == 'array' and not out:
        n = {d[f].shape[:1] for f in M.per_record(v, ft)}
        if len(n) > 1 or () in n:
            out['count'] = set()
    return out


def label(d, st):
    """Version the data claim, None when it cannot be told."""
    if st == 'site':
        if not d:
            return None
        d = d[sorted(d)[0]]
        if not isinstance(d, dict):
            return None
    h = d.get('borealis_git_hash')
    if not isinstance(h, str):
        return None
    return '.'.join(h.split('-')[0].split('.')[:2])


def verdict(ft, st, d):
    """None when acceptable, else ('site', {rec: broken}) / ('array', broken) / ('version',) / ('structure',)"""
    v = label(d, st)
    if v is None:
        return ('structure',)
    if v not in M.VERSIONS:
        return ('version',)
    if st == 'site':
        b = {n: broken(v, ft, st, r) for n, r in d.items()}
        b = {n: x for n, x in b.items() if x}
        return ('site', b, v) if b else None
    b = broken(v, ft, st, d)
    return ('array', b, v) if b else None


def judge_error(want, err, ft, st, d, arg):
    """None when the error is the right one."""
    from pydarnio import borealis_exceptions as be
    import inspect
    doc = tuple(c for _, c in inspect.getmembers(be, inspect.isclass) if issubclass(c, Exception))
    if not isinstance(err, doc):
        return 'raised %s: %s' % (type(err).__name__, str(err)[:200])
    if arg is None:
        return None
    if want[0] == 'structure':
        return None if isinstance(err, (be.BorealisStructureError, be.BorealisBadRecordsError)) else repr(err)[:200]
    if want[0] == 'version':
        return None if isinstance(err, be.BorealisVersionError) else repr(err)[:200]
    if want[0] == 'site':
        b, v = want[1], want[2]
        if isinstance(err, be.BorealisStructureError):
            at, ds = tables(v, ft, st)
            n = len(at) + len(ds)
            return None if any(len(x.get('missing', ())) == n for x in b.values()) else repr(err)[:200]
        if not isinstance(err, be.BorealisBadRecordsError):
            return 'raised %r' % (err,)
        lists = {'missing': err.missing_fields, 'extra': err.extra_fields, 'type': err.incorrect_fields}
        for kind, rs in lists.items():
            for n, fs in rs.items():
                if n not in b or kind not in b[n]:
                    return 'lists %s fields %r for record %s, which has %r' % (kind, fs, n, b.get(n))
                if set(fs) != b[n][kind]:
                    return 'lists the %s fields %r of record %s instead of %r' % (kind, set(fs), n, b[n][kind])
        for n in b:
            if not any(n in rs for rs in lists.values()):
                return 'does not list the bad record %s (%r)' % (n, b[n])
        return None
    b = want[1]
    got = None
    if isinstance(err, be.BorealisFieldMissingError):
        got = ('missing', set(err.fields))
    elif isinstance(err, be.BorealisExtraFieldError):
        got = ('extra', set(err.fields))
    elif isinstance(err, be.BorealisDataFormatTypeError):
        got = ('type', set(err.incorrect_types))
    elif isinstance(err, be.BorealisNumberOfRecordsError):
        got = ('count', set())
    elif isinstance(err, be.BorealisStructureError):
        at, ds = tables(want[2], ft, st)
        # array where a single value belongs (or the other way round), or nothing left
        conf = {f for f in b.get('type', ()) if isinstance(d[f], np.ndarray) != (f in ds)}
        return None if conf or len(b.get('missing', ())) == len(at) + len(ds) else repr(err)[:200]
    if got is None:
        return 'raised %r' % (err,)
    if got[0] not in b:
        return 'reports %s fields, but the data break %r' % (got[0], b)
    if got[0] != 'count' and got[1] != b[got[0]]:
        if got[0] == 'type' and got[1] and got[1] <= b['type']:
            pass        # confusions of array and single value are reported separately
        return 'names the %s fields %r instead of %r' % (got[0], got[1], b[got[0]])
    return None


# ----------------------------------------------------------------- running
class Judge:
    def __init__(self, ctx, v, ft, st):
        self.ctx, self.v, self.ft, self.st = ctx, v, ft, st

    def bad(self, key, text):
        k = '%s:%s:%s:%s' % (self.v, self.ft, self.st, key)
        self.ctx.bad(k, '%s: %s' % (k, text))

    def write(self, key, d, args=('same',), ft=None):
        import pydarnio as P
        ft = ft or self.ft
        want = verdict(ft, self.st, d)
        for a, dest in itertools.product(args, ('absent', 'existing')):
            arg = self.st if a == 'same' else a
            fn = self.ctx.path('w.hdf5')
            if os.path.exists(fn):
                os.unlink(fn)
            if dest == 'existing':
                if want is None:
                    continue
                open(fn, 'wb').write(b'previous contents')
            k = 'write %s arg=%s %s' % (key, arg, dest)
            self.ctx.ev((self.v, self.ft, self.st, k) if want else None)
            self.ctx.sample(k)
            before = snap(d)
            err = None
            try:
                if arg is None:
                    P.BorealisWrite(fn, d, ft)
                else:
                    P.BorealisWrite(fn, d, ft, arg)
            except Exception as e:
                err = e
            if want is None:
                if err is not None:
                    self.bad(k, 'valid data refused: %s: %s' % (type(err).__name__, str(err)[-300:]))
                continue
            if err is None:
                self.bad(k, 'accepted although the data break %r' % (want,))
                continue
            x = judge_error(want, err, ft, self.st, d, arg)
            if x:
                self.bad(k, x)
            if dest == 'absent' and os.path.exists(fn):
                self.bad(k, 'the refused write created the destination')
            if dest == 'existing' and open(fn, 'rb').read() != b'previous contents':
                self.bad(k, 'the refused write changed the destination')
            if snap(d) != before:
                self.bad(k, 'the refused write changed the data')

    def read(self, key, d, args=('same',), ft=None):
        import pydarnio as P
        ft = ft or self.ft
        fn = self.ctx.path('r.hdf5')
        (bf.write_site if self.st == 'site' else bf.write_array)(fn, d)
        want = verdict(ft, self.st, d)
        h = bf.digest(fn)
        for a in args:
            arg = self.st if a == 'same' else a
            k = 'read %s arg=%s' % (key, arg)
            self.ctx.ev((self.v, self.ft, self.st, k) if want else None)
            self.ctx.sample(k)
            err = None
            try:
                P.BorealisRead(fn, ft) if arg is None else P.BorealisRead(fn, ft, arg)
            except Exception as e:
                err = e
            if bf.digest(fn) != h:
                self.bad(k, 'the file was changed')
            if want is None:
                if err is not None:
                    self.bad(k, 'valid data refused: %s: %s' % (type(err).__name__, str(err)[-300:]))
                continue
            if err is None:
                self.bad(k, 'accepted although the data break %r' % (want,))
                continue
            x = judge_error(want, err, ft, self.st, d, arg)
            if x:
                self.bad(k, x)


def positions(d, st, n=3):
    if st == 'array':
        return [None]
    return list(range(len(d)))


def changed(v, ft, st, pos, drop=(), put=None):
    """A fresh valid set with fields dropped / replaced (in record `pos`)."""
    d = base(v, ft, st)
    r = d if pos is None else d[sorted(d)[pos]]
    for f in drop:
        r.pop(f)
    r.update(put or {})
    return d


def foreign(v, ft, st):
    at, ds = tables(v, ft, st)
    out = {}
    for u in M.VERSIONS:
        for g in M.ALLTYPES:
            for s in ('site', 'array'):
                if s == 'array' and g == 'rawrf':
                    continue
                a, b = tables(u, g, s)
                for f in a:
                    if f not in at and f not in ds:
                        out[f] = 'text' if a[f] is str else a[f](1)
                for f in b:
                    if f not in at and f not in ds:
                        t = b[f]
                        out[f] = np.array(['a', 'b']) if t is str else np.array(['a', 'b']).astype(t) \
                            if t in (np.str_, np.bytes_) else np.ones(3, dtype=t)
    out.update({'bogus': np.float32(1), 'Data': np.ones(2), 'num_beams2': 'text', 'pulse': np.ones(1, np.uint32)})
    return out


def run(case, ctx):
    fam, v, ft, st = case[:4]
    j = Judge(ctx, v, ft, st)
    at, ds = tables(v, ft, st)
    names = sorted(set(at) | set(ds))
    if fam == 'fields':
        todo = [getattr(j, m) for m in {'r': ['read'], 'w': ['write'], 'x': ['read', 'write']}[case[4]]]
        thin = case[4] == 'x'
        for do in todo:
            do('valid', base(v, ft, st), ('same', None))
            for n in (1, 2):
                do('valid %d' % n, base(v, ft, st, n), ('same', None))
            for pos in positions(base(v, ft, st), st):
                if thin and pos not in (None, 1):
                    continue
                for f in names:
                    do('without %s at %s' % (f, pos), changed(v, ft, st, pos, [f]), ('same', None))
                for f, x in foreign(v, ft, st).items():
                    do('with %s at %s' % (f, pos), changed(v, ft, st, pos, (), {f: x}),
                       ('same',) if pos in (0, 2) else ('same', None))
                do('nothing at %s' % pos, changed(v, ft, st, pos, names))
                do('only the hash at %s' % pos, changed(v, ft, st, pos, [f for f in names if f != 'borealis_git_hash']))
    elif fam == 'types':
        do = j.read if case[4] == 'r' else j.write
        for i, f in enumerate(names):
            if case[4] == 'r' and i % 4 != case[5]:
                continue
            alts = []
            if f in at:
                alts = [x for x in ALT_SCALARS if type(x) is not at[f] and not (
                    at[f] is not str and f == 'borealis_git_hash')]
                alts.append(np.array([1], dtype=np.uint32))
                if at[f] is not str:
                    alts.append(np.ones(2, dtype=at[f]))
                else:
                    alts.append(np.array(['a', 'b']))
                if case[4] == 'w':
                    alts += PY_SCALARS
            else:
                proto = None
                for t in ALT_DTYPES:
                    if t is ds[f]:
                        continue
                    b = base(v, ft, st)
                    x = b[f] if st == 'array' else b[sorted(b)[1]][f]
                    if x.dtype.kind in 'US':
                        y = x.astype(t) if t in (np.str_, np.bytes_) else np.ones(x.shape, dtype=t)
                    else:
                        y = x.astype(t)
                    if f == 'pulse_phase_offset' and t is np.int64 and y.shape == (2,):
                        continue        # the known damage of early files is repaired on reading
                    alts.append(y)
                t = ds[f]
                alts.append(t(1) if t not in (str, np.str_, np.bytes_) else 'text')
                if case[4] == 'w':
                    alts += [None, [1, 2], (1,), 'text', 5]
            for n, x in enumerate(alts):
                # quick: a type is tried when reading every other version (writing tries it in all of them)
                if case[-1] == 'quick' and (n + i + list(M.VERSIONS).index(v)) % 2:
                    continue
                if case[4] == 'r' and f == 'pulse_phase_offset' and st == 'site' and isinstance(x, np.ndarray) \
                        and x.shape not in ((2,), (1, 2), (2, 2)):
                    continue
                ps = positions(base(v, ft, st), st)
                for pos in ps if n % 5 == 0 else [ps[n % len(ps)]]:
                    d = changed(v, ft, st, pos, (), {f: x})
                    k = '%s=%s %s at %s' % (f, type(x).__name__, getattr(x, 'dtype', ''), pos)
                    do(k, d, ('same',) if n % 4 else ('same', None))
    elif fam == 'pairs':
        # several deviations, in one record or in several
        fs = foreign(v, ft, st)
        f0 = sorted(fs)[0]
        hard = [f for f in names if f != 'borealis_git_hash']
        for a, b in itertools.combinations(hard, 2):
            if (names.index(a) + names.index(b)) % 5 == 0:
                pos = None if st == 'array' else names.index(a) % 3
                j.write('without %s and %s at %s' % (a, b, pos), changed(v, ft, st, pos, [a, b]))
        for i, a in enumerate(hard):
            pos = None if st == 'array' else i % 3
            wrong = {hard[(i + 3) % len(hard)]: np.ones(3, np.float16)}
            wrong = {k: x for k, x in wrong.items() if k in ds}
            j.write('without %s, with %s' % (a, f0), changed(v, ft, st, pos, [a], {f0: fs[f0]}))
            j.read('without %s, with %s' % (a, f0), changed(v, ft, st, pos, [a], {f0: fs[f0]}))
            if wrong:
                j.write('without %s, wrong %s' % (a, sorted(wrong)), changed(v, ft, st, pos, [a], wrong))
                j.write('wrong %s, with %s' % (sorted(wrong), f0), changed(v, ft, st, pos, (), dict(wrong, **{f0: fs[f0]})))
            if st == 'site':
                # all three kinds in three records, every assignment
                for order in itertools.permutations(range(3)):
                    d = base(v, ft, st)
                    rs = [d[n] for n in sorted(d)]
                    rs[order[0]].pop(a)
                    rs[order[1]][f0] = fs[f0]
                    g = hard[(i + 7) % len(hard)]
                    rs[order[2]][g] = np.ones((2, 2), np.float16)
                    j.write('kinds %s %s %s order %s' % (a, f0, g, order), d)
                    if i % 3 == 0 and g != 'pulse_phase_offset' and a not in ('pulses',):
                        j.read('kinds %s %s %s order %s' % (a, f0, g, order), d)
                for sub in itertools.product((0, 1), repeat=3):
                    d = base(v, ft, st)
                    for x, n in zip(sub, sorted(d)):
                        if x:
                            d[n].pop(a)
                    j.write('without %s in %s' % (a, sub), d)
    elif fam == 'many':
        # more records than fit one screen of an error message
        fs = foreign(v, ft, st)
        hard = [f for f in names if f != 'borealis_git_hash']
        wrong = [f for f in hard if f in ds and f != 'pulse_phase_offset']
        for n in (11, 34):
            for label, which in (('all', range(n)), ('last', [n - 1]), ('first', [0]), ('all but last', range(n - 1)),
                                 ('even', range(0, n, 2)), ('middle', [n // 2]), ('ends', [0, n - 1])):
                for kinds in ('m', 'x', 't', 'mxt', 'mmmmmmx', 'xxxxxxt', 'ttttttttttm'):
                    d = M.make_records(v, ft, [M.Geo(1 + i % 2, 1, 1) for i in range(n)])
                    for i, p in enumerate(which):
                        r, k = d[sorted(d)[p]], kinds[i % len(kinds)]
                        if k == 'm':
                            r.pop(hard[p % len(hard)])
                        elif k == 'x':
                            f = sorted(fs)[p % len(fs)]
                            r[f] = fs[f]
                        else:
                            r[wrong[p % len(wrong)]] = np.ones((2, 2), np.float16)
                    k = '%d records, bad: %s %s' % (n, label, kinds)
                    j.write(k, d)
                    if n == 11:
                        j.read(k, d)
    elif fam == 'counts':
        for f in sorted(M.per_record(v, ft)):
            for how in ('short', 'long', 'one', 'none'):
                d = base(v, ft, st)
                x = d[f]
                d[f] = {'short': x[:-1], 'long': np.concatenate([x, x[:1]]), 'one': x[:1], 'none': x[:0]}[how]
                j.write('%s %s' % (f, how), d, ('same', None))
                j.read('%s %s' % (f, how), d, ('same', None))
            d = base(v, ft, st)
            if d[f].dtype.kind not in 'US':
                d[f] = np.array(d[f].ravel()[0])
                j.write('%s single' % f, d)
        for f, g in itertools.combinations(sorted(M.per_record(v, ft)), 2):
            d = base(v, ft, st)
            d[f], d[g] = d[f][:-1], d[g][:-1]
            j.write('%s and %s short' % (f, g), d)
        d = base(v, ft, st)
        for f in M.per_record(v, ft):
            d[f] = d[f][:2]
        for f in ('num_beams', 'num_blanked_samples'):
            if f in d:
                d[f] = d[f][:2]
        j.write('all short', d, ('same', None))
        j.read('all short', d, ('same', None))
    elif fam == 'labels':
        # the data of one version / type labelled as another
        for u in M.VERSIONS:
            for g in M.ALLTYPES:
                if st == 'array' and g == 'rawrf':
                    continue
                d = base(v, ft, st)
                for r in ([d] if st == 'array' else d.values()):
                    r['borealis_git_hash'] = u + '.1-3-gabc'
                k = 'as %s %s' % (u, g)
                j.write(k, d, ('same', None), ft=g)
                j.read(k, d, ('same', None), ft=g)
    elif fam == 'allpairs':
        a = names[case[4]]
        fs = foreign(v, ft, st)
        for b in names:
            if b > a:
                j.write('without %s and %s' % (a, b), changed(v, ft, st, None if st == 'array' else 1, [a, b]))
            if b != a and b in ds:
                for t in (np.float16, np.uint16, np.str_):
                    pos = None if st == 'array' else 0
                    x = np.ones(3, np.float16) if t is not np.str_ or ds[b] in (np.str_, str, np.bytes_) else np.array(['a'])
                    j.write('without %s wrong %s %s' % (a, b, x.dtype), changed(v, ft, st, pos, [a], {b: x}))
        for f, x in fs.items():
            j.write('without %s with %s' % (a, f), changed(v, ft, st, None if st == 'array' else 2, [a], {f: x}))
