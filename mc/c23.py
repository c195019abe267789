"""C23: Borealis files of early software are read as the data they stand for."""
import itertools
import os
import tempfile
import h5py
import numpy as np
import bfile as bf
import bmodel as M
import convmodel as cm
import opspace as O

PID = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of the ways early software stored a file (PyTables/deepdish markers at file, '
             'record and field level, empty texts, chunking and compression, every subset of records with the emptied phase '
             'offset field) x version x file type x structure x operation on the real code, each compared with the same '
             'operation on the plainly stored file')
RULE = ('the reader, the in-memory and file restructuring and the converter must give on the early file what they give on the '
        'plain file of the same data (the emptied phase offset field standing for offsets of zero) and leave the file alone; '
        'every evaluation is non-trivial')
ASSUMPTIONS = ['an emptied phase offset field is an int64 field that holds its shape: [0] in a record, [records, 0] in an array file from v0.6 on',
               'an array file whose phase offsets were emptied may read as no offsets or as offsets of zero']


def kinds():
    for v, ft, st in O.borealis_kinds():
        yield v, ft, st


def cases(tier):
    for v, ft, st in kinds():
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            yield [v, ft, st, n, tier]


_D = None


def worker_init(scratch):
    global _D
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='old-')


def records(v, ft, n, ppo):
    beams, seqs = [(2, 1), (1, 2), (1,), (2, 2)], (1, 2, 1, 3)
    if ft in ('rawacf', 'bfiq'):
        recs = cm.make(v, ft, n, tuple(len(b) for b in beams[:n]), seqs[:n])
    else:
        recs = M.make_records(v, ft, [M.Geo(seqs[i], len(beams[i]), 1) for i in range(n)])
    for i, r in enumerate(recs.values()):
        if 'pulse_phase_offset' in r:
            x = np.zeros(len(r['pulses']), dtype=np.float32)
            if ppo == 'some' and M.gen(v) >= 6:
                x += np.float32(10 * i + 1) + np.arange(len(x), dtype=np.float32)
            r['pulse_phase_offset'] = x
        for k, t in M.site_fields(v, ft)[0].items():
            if k in ('experiment_comment', 'slice_comment') and k in r:
                r[k] = ''
    return recs


def age(path, st, markers, damaged):
    """Store the file as early software did."""
    with h5py.File(path, 'a') as f:
        groups = list(f.values()) if st == 'site' else [f]
        if markers:
            for g in [f] + groups:
                g.attrs['CLASS'] = np.bytes_(b'GROUP')
                g.attrs['TITLE'] = h5py.Empty('S1')
                g.attrs['VERSION'] = np.bytes_(b'1.0')
                for k in list(g.attrs):
                    x = g.attrs[k]
                    if isinstance(x, bytes) and len(x) == 0:
                        g.attrs[k] = h5py.Empty('S1')
            f.attrs['PYTABLES_FORMAT_VERSION'] = np.bytes_(b'2.1')
            f.attrs['DEEPDISH_IO_VERSION'] = np.int64(12)
            for g in groups:
                for ds in g.values():
                    if isinstance(ds, h5py.Dataset):
                        ds.attrs['CLASS'] = np.bytes_(b'CARRAY')
                        ds.attrs['TITLE'] = h5py.Empty('S1')
                        ds.attrs['VERSION'] = np.bytes_(b'1.1')
        for i in damaged:
            g = groups[i]
            n = [0] if st == 'site' else [f['num_sequences'].shape[0], 0]
            del g['pulse_phase_offset']
            g['pulse_phase_offset'] = np.array(n, dtype=np.int64)
            g['pulse_phase_offset'].attrs['zeroarray_dtype'] = np.bytes_(b'float32')


def no_offsets(data):
    """Does every phase offset read as none or zero?"""
    for r in data.values() if all(isinstance(x, dict) for x in data.values()) else [data]:
        x = np.asarray(r['pulse_phase_offset'])
        if x.dtype != np.float32 or np.any(x):
            return False
    return True


def without(data):
    if all(isinstance(x, dict) for x in data.values()):
        return {n: {k: x for k, x in r.items() if k != 'pulse_phase_offset'} for n, r in data.items()}
    return {k: x for k, x in data.items() if k != 'pulse_phase_offset'}


def run(case, ctx):
    import pydarnio as P
    v, ft, st, n, tier = case
    p, q = os.path.join(_D, 'in.hdf5'), os.path.join(_D, 'out')
    other = 'array' if st == 'site' else 'site'

    def fresh():
        if os.path.exists(q):
            os.unlink(q)
        return q

    def read(*s):
        r = P.BorealisRead(p, ft, *s)
        return r.records if st == 'site' else r.arrays

    def turned():
        r = P.BorealisRead(p, ft)
        return r.arrays if st == 'site' else r.records

    def restructure():
        P.BorealisRestructure(p, fresh(), ft, other)
        r = P.BorealisRead(q, ft, other)
        return r.records if other == 'site' else r.arrays

    def twice():
        restructure()
        back = os.path.join(_D, 'back')
        if os.path.exists(back):
            os.unlink(back)
        P.BorealisRestructure(q, back, ft, st)
        r = P.BorealisRead(back, ft, st)
        return r.records if st == 'site' else r.arrays

    def convert(**kw):
        P.BorealisConvert(p, ft, fresh(), 2, **kw)
        with open(q, 'rb') as f:
            return f.read()
    ops = {'read as %s' % st: lambda: read(st), 'read': read}
    if ft != 'rawrf':
        ops['turned in memory'] = turned
        ops['restructured'] = restructure
        ops['restructured and back'] = twice
    if ft in ('rawacf', 'bfiq'):
        ops['converted'] = convert
        ops['converted as %s' % st] = lambda: convert(borealis_file_structure=st)

    def attempt(f):
        try:
            return f()
        except Exception as e:
            return '%s: %s' % (type(e).__name__, str(e)[-300:])
    has = 'pulse_phase_offset' in M.site_fields(v, ft)[1]
    every = [()]
    if has and st == 'site':
        every = [c for m in range(n + 1) for c in itertools.combinations(range(n), m)]
    elif has and M.gen(v) >= 6:
        every = [(), (0,)]
    for damaged, ppo in itertools.product(every, ('some', 'zeros') if has and M.gen(v) >= 6 else ('zeros',)):
        recs = records(v, ft, n, ppo)
        for i in damaged if st == 'site' else range(n) if damaged else ():
            r = list(recs.values())[i]
            r['pulse_phase_offset'] = np.zeros_like(r['pulse_phase_offset'])
        plain = None
        for markers in (False, True):
            if not damaged and not markers:
                continue
            for c in (None, 'gzip'):
                if tier == 'quick' and (c == 'gzip') != (len(damaged) % 2 == 1):
                    continue
                data = recs if st == 'site' else M.to_array_data(v, ft, recs)

                def store(c=None):
                    if os.path.exists(p):
                        os.unlink(p)
                    (bf.write_site if st == 'site' else bf.write_array)(p, data, c)
                if plain is None:
                    store()
                    plain = {name: attempt(f) for name, f in ops.items()}
                store(c)
                age(p, st, markers, damaged)
                h = bf.digest(p)
                for name, f in ops.items():
                    key = '%s %s %s of %d, offsets %s, emptied %s, markers %s, %s: %s' % (
                        v, ft, st, n, ppo, list(damaged), markers, c, name)
                    ctx.ev(key)
                    ctx.state((v, ft, st, n, ppo, damaged, markers, c))
                    ctx.transition(key)
                    ctx.sample(key)
                    want, got = plain[name], attempt(f)
                    if isinstance(want, str) and ppo == 'some' and name.startswith('conv'):
                        if not isinstance(got, str):    # offsets cannot be converted
                            ctx.bad(key, '%s: accepted, unlike the plain file' % key)
                    elif isinstance(want, str):
                        ctx.bad(key, '%s: the plain file is refused: %s' % (key, want))
                    elif isinstance(got, str):
                        ctx.bad(key, '%s: %s' % (key, got))
                    elif st == 'array' and damaged and not isinstance(want, bytes):
                        if O.digest(without(want)) != O.digest(without(got)):
                            ctx.bad(key, '%s: other data than from the plain file' % key)
                        elif not no_offsets(got):
                            ctx.bad(key, '%s: phase offsets that the file does not hold' % key)
                    elif O.digest(want) != O.digest(got):
                        ctx.bad(key, '%s: other data than from the plain file' % key)
                    if bf.digest(p) != h:
                        ctx.bad(key, '%s: the file changed' % key)
                        store(c)
                        age(p, st, markers, damaged)
                        h = bf.digest(p)
