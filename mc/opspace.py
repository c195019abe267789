"""The alphabet of whole operations used by C17 (histories) and C18 (threads).

prepare(dir) writes every input with the reference encoders (no pydarnio);
alphabet(dir) gives {name: function(outdir) -> result}.  Results are plain
data; digest() turns a result or an exception into comparable text.
"""
import collections
import glob
import hashlib
import os
import re
import shutil
import numpy as np
import bmodel as M
import bfile as bf
import convmodel as cm
import dmapcodec as dc
import sdmodel
from snap import snap


def bdata(v, ft, st, kind='ok'):
    if ft in ('rawacf', 'bfiq'):
        recs = cm.make(v, ft, 2, (2, 1), (1, 2))
    else:
        recs = M.make_records(v, ft, [M.Geo(2, 1, 1), M.Geo(1, 2, 1)])
    if kind == 'missing':
        for r in recs.values():
            del r['pulses' if 'pulses' in r else 'data']
    d = recs if st == 'site' else M.to_array_data(v, ft, M.make_records(v, ft, [M.Geo(2, 1, 1)]) if kind == 'missing' else recs)
    if kind == 'missing' and st == 'array':
        del d['sqn_timestamps']
    if kind == 'extra':
        for r in (d.values() if st == 'site' else [d]):
            r['foreign'] = np.float32(1)
    if kind == 'version':
        for r in (d.values() if st == 'site' else [d]):
            r['borealis_git_hash'] = 'v0.9'
    return d


def borealis_kinds():
    for v in M.VERSIONS:
        for ft in M.ALLTYPES:
            for st in ('site', 'array'):
                if st == 'array' and ft == 'rawrf':
                    continue
                yield v, ft, st


def bname(v, ft, st, kind='ok'):
    return '%s-%s-%s-%s.hdf5' % (v, ft, st, kind)


def sdrecs(t, kind='ok'):
    recs = [sdmodel.make_record(t, None, k) for k in range(2)]
    if kind == 'bad':
        recs = [sdmodel.make_record(t, None, 0), sdmodel.make_record(t, None, 1, ['stid'], add=[('foreign', 'i')])]
    return recs


def prepare(d):
    os.makedirs(d, exist_ok=True)
    for v, ft, st in borealis_kinds():
        for kind in ('ok', 'missing', 'extra', 'version'):
            (bf.write_site if st == 'site' else bf.write_array)(os.path.join(d, bname(v, ft, st, kind)), bdata(v, ft, st, kind))
    for t in sdmodel.TYPES:
        for kind in ('ok', 'bad'):
            with open(os.path.join(d, '%s-%s.dmap' % (t, kind)), 'wb') as f:
                f.write(dc.encode(sdrecs(t, kind)))
        with open(os.path.join(d, '%s-cut.dmap' % t), 'wb') as f:
            f.write(dc.encode(sdrecs(t))[:-7])


def hdf(path):
    """Contents of an HDF5 file by the reference reader."""
    import h5py
    with h5py.File(path, 'r') as f:
        flat = 'borealis_git_hash' in list(f.keys()) + list(f.attrs.keys())
    return bf.read_array(path) if flat else bf.read_site(path)


def alphabet(d, small=False):
    import pydarnio as P
    ops = collections.OrderedDict()

    def fn(*a):
        return os.path.join(d, bname(*a))

    def place(path, out):
        # every operation finds its input under the same name, so that anything
        # remembered by file name belongs to another file
        p = os.path.join(out, 'in' + os.path.splitext(path)[1])
        shutil.copyfile(path, p)
        return p

    def bread(src, ft, st):
        def f(out):
            path = place(src, out)
            r = P.BorealisRead(path, ft, st) if st else P.BorealisRead(path, ft)
            res = [r.borealis_file_structure, r.software_version, list(r.record_names), r.records]
            if ft != 'rawrf':
                res.append(r.arrays)
            return res
        return f

    def bwrite(data, ft, st):
        def f(out):
            p = os.path.join(out, 'w.hdf5')
            x = data()
            w = P.BorealisWrite(p, x, ft, st) if st else P.BorealisWrite(p, x, ft)
            res = [w.borealis_file_structure, w.software_version, x, hdf(p)]
            if ft != 'rawrf':
                res.append(w.records if w.borealis_file_structure == 'array' else w.arrays)
            return res
        return f

    def brestr(src, ft, to):
        def f(out):
            path = place(src, out)
            p = os.path.join(out, 'r.hdf5')
            P.BorealisRestructure(path, p, ft, to)
            return [hdf(p)]
        return f

    def bconv(src, ft, st, sl):
        def f(out):
            path = place(src, out)
            p = os.path.join(out, 'c.dmap')
            c = P.BorealisConvert(path, ft, p, sl, st)
            with open(p, 'rb') as g:
                return [g.read(), list(c.sdarn_dict), c.scaling_factor, int(c.borealis_slice_id)]
        return f

    vs = M.VERSIONS if not small else ('v0.4', 'v0.5', 'v0.6', 'v0.7')
    for v, ft, st in borealis_kinds():
        if v not in vs or (small and ft in ('antennas_iq', 'rawrf')):
            continue
        ops['read %s %s %s' % (v, ft, st)] = bread(fn(v, ft, st), ft, None if v in ('v0.3', 'v0.6') else st)
        if not small or st == 'array':
            ops['write %s %s %s' % (v, ft, st)] = bwrite(lambda v=v, ft=ft, st=st: bdata(v, ft, st), ft,
                                                        None if v in ('v0.2', 'v0.5') else st)
        if ft != 'rawrf':
            ops['restructure %s %s %s' % (v, ft, st)] = brestr(fn(v, ft, st), ft, 'array' if st == 'site' else 'site')
        if ft in ('rawacf', 'bfiq') and (not small or v in ('v0.5', 'v0.7')):
            ops['convert %s %s %s' % (v, ft, st)] = bconv(fn(v, ft, st), ft, None if v in ('v0.4', 'v0.7') else st,
                                                          2 if M.gen(v) < 5 else None)
    for v, kind, ft, st in (('v0.4', 'missing', 'bfiq', 'site'), ('v0.5', 'extra', 'rawacf', 'array'),
                            ('v0.6', 'version', 'antennas_iq', 'site'), ('v0.7', 'missing', 'rawacf', 'array'),
                            ('v0.7', 'extra', 'bfiq', 'site'), ('v0.3', 'extra', 'bfiq', 'array')):
        if small and v in ('v0.6', 'v0.3'):
            continue
        ops['read bad %s %s %s %s' % (v, ft, st, kind)] = bread(fn(v, ft, st, kind), ft, st)
        ops['write bad %s %s %s %s' % (v, ft, st, kind)] = bwrite(lambda a=(v, ft, st, kind): bdata(*a), ft, st)
        if not small:
            ops['restructure bad %s %s %s %s' % (v, ft, st, kind)] = brestr(fn(v, ft, st, kind), ft, 'array' if st == 'site' else 'site')
    if not small:
        ops['convert bad'] = bconv(fn('v0.6', 'bfiq', 'site', 'version'), 'bfiq', 'site', None)
        ops['convert no slice'] = bconv(fn('v0.4', 'rawacf', 'site'), 'rawacf', 'site', None)
        ops['read unknown type'] = bread(fn('v0.6', 'rawacf', 'site'), 'fitacf', None)

    def sread(src, t, stream):
        def f(out):
            path = place(src, out)
            if stream:
                with open(path, 'rb') as g:
                    r = P.SDarnRead(g.read(), True)
            else:
                r = P.SDarnRead(path)
            return [sdmodel.read(r, t)]
        return f

    def swrite(t, kind):
        def f(out):
            p = os.path.join(out, 's.dmap')
            recs = P.dict2dmap([sdmodel.to_dict(r) for r in sdrecs(t, kind)])
            w = P.SDarnWrite(recs)
            sdmodel.write(w, t, p)
            with open(p, 'rb') as g:
                return [g.read()]
        return f

    for i, t in enumerate(sdmodel.TYPES):
        if small and t not in ('rawacf', 'map', 'grid'):
            continue
        ops['sdarn read %s' % t] = sread(os.path.join(d, t + '-ok.dmap'), t, i % 2 == 0)
        ops['sdarn write %s' % t] = swrite(t, 'ok')
        if not small or t == 'map':
            ops['sdarn read bad %s' % t] = sread(os.path.join(d, t + '-bad.dmap'), t, i % 2 == 1)
            ops['sdarn read cut %s' % t] = sread(os.path.join(d, t + '-cut.dmap'), t, i % 2 == 0)
            ops['sdarn write bad %s' % t] = swrite(t, 'bad')
            ops['sdarn read %s as other' % t] = sread(os.path.join(d, t + '-ok.dmap'),
                                                      sdmodel.TYPES[(i + 1) % len(sdmodel.TYPES)] if not isinstance(sdmodel.TYPES, dict)
                                                      else sorted(sdmodel.TYPES)[(i + 1) % len(sdmodel.TYPES)], i % 2 == 0)

    def dread(out):
        r = P.DmapRead(os.path.join(d, 'fitacf-ok.dmap'))
        r.test_initial_data_integrity()
        recs = r.read_records()
        return [P.dmap2dict(recs), P.dmap2dict(r.get_dmap_records), len(r.get_records)]

    def dwrite(out):
        p = os.path.join(out, 'd.dmap')
        recs = P.dict2dmap([{'a': np.int16(3), 'b': np.arange(6, dtype=np.float32).reshape(2, 3), 'c': 'text'}])
        w = P.DmapWrite(recs, p)
        w.write_dmap()
        s = bytes(w.write_dmap_stream())
        with open(p, 'rb') as g:
            return [g.read(), s]

    def dempty(out):
        w = P.DmapWrite()
        return [bytes(w.write_dmap_stream(P.dict2dmap([{'x': 5, 'y': np.ones(2)}])))]

    def dnone(out):
        p = os.path.join(out, 'n.dmap')
        P.DmapWrite().write_dmap(p)
        return [os.path.exists(p)]

    def dbad(out):
        P.dict2dmap([{'x': 1 + 2j, 'y': np.ones(2)}])

    def dlist(out):
        return [P.dmap2dict(P.dict2dmap([{'x': 5, 'l': [1, 2, 3], 'z': 'q'}, {'l': [1.5], 'x': -1}]))]

    def sempty(out):
        p = os.path.join(out, 'e.dmap')
        P.SDarnWrite([], p).write_rawacf(p)
        return [os.path.exists(p)]

    for f in (dread, dwrite, dempty, dnone, dbad, dlist, sempty):
        ops[f.__name__] = f
    return ops


def digest(x):
    return hashlib.blake2b(repr(snap(x)).encode('utf-8', 'surrogatepass'), digest_size=12).hexdigest()


def attempt(f, out):
    """(digest, result or None, short text)"""
    for n in os.listdir(out):
        os.unlink(os.path.join(out, n))
    try:
        r = f(out)
    except Exception as e:
        t = re.sub(r'0x[0-9a-f]+', '0x', '%s: %s' % (type(e).__name__, e))
        return digest(t), None, t[-300:]
    return digest(r), r, 'success'
