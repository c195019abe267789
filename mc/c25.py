"""C25: writing to a path that already holds something harms nothing it holds."""
import collections
import copy
import os
import h5py
import numpy as np
import bfile as bf
import bmodel as M
import dmapcodec as dc
import opspace as O
import sdmodel

PID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: exhaustive enumeration of what the destination holds (every file type, version and structure, same, disjoint '
             'and overlapping record names, empty and foreign files) x every operation that writes to it, to depth 2 (3 thorough) '
             'of successive writes, against an explicit model of the destination')
RULE = ('after each write the destination holds exactly what the model says: what it held before, plus - only when the write '
        'reports success - the whole new data; non-trivial when the destination holds something')
ASSUMPTIONS = ['the items of an HDF5 file are compared one by one (attributes, data sets, types, shapes, values), DMAP files byte for byte',
               'states = destination contents, transitions = (contents, operation)',
               'restructuring an array file into an existing site file may add leading new records before it reports an error']
CASE_LIMIT = {'quick': 200, 'thorough': 3000}


def items(path):
    """Everything an HDF5 file holds, by path; None if it is no HDF5 file."""
    out = {}
    try:
        f = h5py.File(path, 'r')
    except OSError:
        return None
    with f:
        def add(name, o):
            for k in o.attrs:
                v = o.attrs[k]
                out[name + '@' + k] = O.digest(['empty', v.shape] if isinstance(v, h5py.Empty) else v)
            if isinstance(o, h5py.Dataset):
                out[name] = O.digest([o[()] if o.shape is not None else None, o.dtype.str])
            else:
                out[name] = 'group'
        add('/', f)
        f.visititems(lambda n, o: add('/' + n, o))
    return out


def move(recs, seconds):
    """The same records at other times (with other names)."""
    out = collections.OrderedDict()
    for k, r in recs.items():
        r = copy.deepcopy(r)
        r['sqn_timestamps'] = r['sqn_timestamps'] + seconds
        out[str(int(k) + seconds * 1000)] = r
    return out


SETS = ('same', 'later', 'earlier', 'overlap-first', 'overlap-last')


def dataset(v, ft, st, which):
    recs = O.bdata(v, ft, 'site')
    a, b = move(recs, 1000), move(recs, 500)
    one = list(recs.items())
    x = {'same': lambda: recs, 'later': lambda: a, 'earlier': lambda: b,
         'overlap-first': lambda: collections.OrderedDict(one[:1] + list(a.items())[1:]),
         'overlap-last': lambda: collections.OrderedDict(list(b.items())[:1] + one[1:])}[which]()
    if st == 'site':
        return x
    d = M.to_array_data(v, ft, x)
    if which != 'same':
        d['experiment_comment'] = 'other data'
    return d


def partner(v, ft):
    """Another (version, type)."""
    ks = sorted({(a, b) for a, b, _ in O.borealis_kinds()})
    return ks[(ks.index((v, ft)) + 7) % len(ks)]


def cases(tier):
    for v, ft, st in O.borealis_kinds():
        yield [v, ft, st, tier]


def operations(v, ft, st, d, tier):
    """{name: (write(dest), what a new file then holds, may stop half-way)}"""
    import pydarnio as P
    ops = collections.OrderedDict()

    def fresh(f):
        p = os.path.join(d, 'fresh.hdf5')
        if os.path.exists(p):
            os.unlink(p)
        f(p)
        return items(p)

    def add(name, f, half=False):
        ops[name] = (f, fresh(f), half)
    for w in SETS if st == 'site' else SETS[:2]:
        x = dataset(v, ft, st, w)
        add('write %s %s' % (st, w), lambda o, x=x: P.BorealisWrite(o, x, ft, st))
        if w == 'same' and tier != 'quick':
            add('write %s %s gzip' % (st, w), lambda o, x=x: P.BorealisWrite(o, x, ft, st, hdf5_compression='gzip'))
        if ft != 'rawrf':
            src = os.path.join(d, 'src-%s.hdf5' % w)
            (bf.write_site if st == 'site' else bf.write_array)(src, x)
            add('restructure %s %s' % (st, w), lambda o, src=src: P.BorealisRestructure(
                src, o, ft, 'array' if st == 'site' else 'site'), st == 'array')
    return ops


def contents(v, ft, st, d):
    """{name: path} of what a destination may hold."""
    out = collections.OrderedDict()

    def put(name, f, *a):
        p = os.path.join(d, 'old-%d' % len(out))
        f(p, *a)
        out[name] = p
    other = 'array' if st == 'site' else 'site'

    def blank(p):
        with h5py.File(p, 'w'):
            pass

    def marked(p):
        with h5py.File(p, 'w') as f:
            for k, x in bf.LEGACY_ATTRS.items():
                f.attrs[k] = x

    def foreign(p):
        with h5py.File(p, 'w') as f:
            f.create_dataset('something/else', data=np.arange(5))
            f.attrs['note'] = 'keep'

    def raw(p, b):
        with open(p, 'wb') as f:
            f.write(b)
    put('empty hdf5', blank)
    put('marked empty hdf5', marked)
    put('foreign hdf5', foreign)
    put('text', raw, b'previous contents')
    put('dmap', raw, dc.encode(O.sdrecs('rawacf')))
    for w in SETS:
        put('site ' + w, bf.write_site, dataset(v, ft, 'site', w))
        if ft != 'rawrf':
            put('array ' + w, bf.write_array, dataset(v, ft, 'array', w))
    pv, pft = partner(v, ft)
    for s in ('site', 'array') if pft != 'rawrf' else ('site',):
        put('%s of %s %s' % (s, pv, pft), bf.write_site if s == 'site' else bf.write_array, dataset(pv, pft, s, 'same'))
    return out


def run(case, ctx):
    v, ft, st, tier = case
    d = ctx.path('d')
    os.makedirs(d)
    ops = operations(v, ft, st, d, tier)
    olds = contents(v, ft, st, d)
    dest = os.path.join(d, 'dest.hdf5')
    seen = set()
    depth = 2 if tier == 'quick' else 3

    def visit(path, raw, hist):
        have = items_of(raw)
        for name, (f, new, half) in ops.items():
            with open(dest, 'wb') as g:
                g.write(raw)
            err = None
            try:
                f(dest)
            except Exception as e:
                err = e
            key = '%s %s: %s, onto %s' % (v, ft, name, ' + '.join(hist))
            ctx.ev(key)
            ctx.state((v, ft, st, sorted((have or {}).items()), have is None))
            ctx.transition(key)
            ctx.traces += 1
            ctx.count('refused' if err else 'added')
            ctx.sample(key + (': refused' if err else ': added'))
            with open(dest, 'rb') as g:
                after = g.read()
            got = items_of(after)
            if have is None:
                if err is None:
                    ctx.bad(key, key + ': reports success on a file that is not HDF5')
                elif after != raw:
                    ctx.bad(key, key + ': refused, but the file changed')
                continue
            lost = [k for k in have if not got or got.get(k) != have[k]]
            if lost:
                ctx.bad(key, '%s: %s, but of what the file held, %r is gone or changed' % (
                    key, 'refused (%s)' % err if err else 'reports success', lost[:5]))
                continue
            extra = {k: x for k, x in got.items() if k not in have}
            if err is not None:
                if half:
                    # whole records, each as in the complete file
                    groups = {k.split('/')[1].split('@')[0] for k in extra}
                    want = {k: x for k, x in new.items() if k.split('/')[1].split('@')[0] in groups and k not in ('/',)}
                    if extra != {k: x for k, x in want.items() if k not in have}:
                        ctx.bad(key, '%s: refused, and leaves part of a record: %r' % (key, sorted(extra)[:5]))
                elif extra:
                    ctx.bad(key, '%s: refused (%s), but the file now holds also %r' % (key, err, sorted(extra)[:5]))
            else:
                top = {k.split('/')[1].split('@')[0] for k in have if k != '/' and not k.startswith('/@')}
                newtop = {k.split('/')[1].split('@')[0] for k in new if k != '/' and not k.startswith('/@')}
                flat = any(k.count('/') == 1 and '@' not in k and k != '/' and new[k] != 'group' for k in new)
                if top & newtop or any(got.get(k) != x for k, x in new.items() if k != '/') or \
                        {k for k in got if k not in have} - set(new):
                    ctx.bad(key, '%s: reports success, but the file is not what it held plus the new data' % key)
                elif flat and top:
                    ctx.bad(key, '%s: mixes array data with what the file held' % key)
                elif '/@borealis_git_hash' in have:
                    ctx.bad(key, '%s: adds records to an array file' % key)
            if err is None and len(hist) < depth:
                s = str(sorted(got.items()))
                if s not in seen:
                    seen.add(s)
                    visit(path, after, hist + [name])

    probe = os.path.join(d, 'probe')

    def items_of(raw):
        with open(probe, 'wb') as g:
            g.write(raw)
        return items(probe)

    for name, p in olds.items():
        with open(p, 'rb') as g:
            visit(p, g.read(), [name])
