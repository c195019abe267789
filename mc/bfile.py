"""Reference reader / writer of Borealis HDF5 files (h5py only, no pydarnio).

A site file holds one group per record, an array file holds everything at the
root; scalars and text are attributes (text as UTF-8 bytes), arrays are
datasets, arrays of unicode text are stored as raw UCS-4 bytes with the
attributes strtype='unicode' and itemsize=<characters>.
"""
import hashlib
from collections import OrderedDict
import h5py
import numpy as np
import bmodel as M

LEGACY_ATTRS = {'CLASS': b'GROUP', 'TITLE': b'', 'VERSION': b'1.0', 'DEEPDISH_IO_VERSION': 12,
                'PYTABLES_FORMAT_VERSION': b'2.1'}


def _put(group, k, v, attr, compression, legacy):
    if isinstance(v, str):
        if v == '' and legacy:
            group.attrs[k] = h5py.Empty('S1')
        else:
            group.attrs[k] = np.bytes_(v.encode('utf-8'))
    elif attr and not isinstance(v, np.ndarray):
        group.attrs[k] = v
    elif isinstance(v, np.ndarray):
        if v.dtype.kind == 'U':
            x = np.ascontiguousarray(v).astype(v.dtype.newbyteorder('='))
            n = x.dtype.itemsize // 4
            ds = group.create_dataset(k, data=np.frombuffer(x.tobytes(), np.uint8).reshape(
                x.shape[:-1] + (x.shape[-1] * 4 * n,)) if x.ndim else x, compression=compression)
            ds.attrs['strtype'] = b'unicode'
            ds.attrs['itemsize'] = n
        else:
            group.create_dataset(k, data=v, compression=compression if v.size else None)
    else:
        group.attrs[k] = v


def write_site(path, records, compression=None, legacy=False):
    with h5py.File(path, 'w') as f:
        if legacy:
            for k, v in LEGACY_ATTRS.items():
                f.attrs[k] = v
        for name, rec in records.items():
            g = f.create_group(name)
            if legacy:
                for k in ('CLASS', 'TITLE', 'VERSION'):
                    g.attrs[k] = LEGACY_ATTRS[k]
            for k, v in rec.items():
                _put(g, k, v, not isinstance(v, np.ndarray), compression, legacy)


def write_array(path, data, compression=None, legacy=False):
    with h5py.File(path, 'w') as f:
        if legacy:
            for k, v in LEGACY_ATTRS.items():
                f.attrs[k] = v
        for k, v in data.items():
            _put(f, k, v, not isinstance(v, np.ndarray), compression, legacy)


def _get(group):
    out = {}
    for k in group:
        ds = group[k]
        x = ds[()]
        if 'strtype' in ds.attrs:
            n = int(ds.attrs['itemsize'])
            x = np.frombuffer(np.ascontiguousarray(x).tobytes(), np.dtype('<U%d' % n)).reshape(
                x.shape[:-1] + (x.shape[-1] // (4 * n),))
        out[k] = x
    for k, v in group.attrs.items():
        if k in LEGACY_ATTRS:
            continue
        if isinstance(v, h5py.Empty):
            v = ''
        elif isinstance(v, bytes):
            v = v.decode('utf-8')
        elif isinstance(v, np.ndarray) and v.shape == ():
            v = v[()]
        out[k] = v
    return out


def read_site(path):
    with h5py.File(path, 'r') as f:
        return OrderedDict((name, _get(f[name])) for name in sorted(f))


def read_array(path):
    with h5py.File(path, 'r') as f:
        return _get(f)


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def type_diff(want, got):
    """Do a value and its copy have the same kind and element type?"""
    if isinstance(want, str):
        return None if isinstance(got, str) else 'type %s instead of text' % type(got).__name__
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray):
            return 'type %s instead of an array' % type(got).__name__
        if want.dtype.type is not got.dtype.type:
            return 'element type %s instead of %s' % (got.dtype, want.dtype)
        return None
    if isinstance(got, np.ndarray) and got.ndim:
        return 'an array instead of a scalar'
    if np.asarray(want).dtype.type is not np.asarray(got).dtype.type:
        return 'type %s instead of %s' % (type(got).__name__, type(want).__name__)
    return None


def value_same(want, got):
    d = type_diff(want, got)
    if d:
        return d
    if isinstance(want, str):
        return None if want == got else 'text %r instead of %r' % (got[:80], want[:80])
    w, g = np.asarray(want), np.asarray(got)
    if w.shape != g.shape:
        return 'shape %r instead of %r' % (g.shape, w.shape)
    if w.dtype.kind in 'US':
        return None if w.tolist() == g.tolist() else 'text %r instead of %r' % (g.tolist()[:6], w.tolist()[:6])
    w = w.astype(w.dtype.newbyteorder('='))
    g = g.astype(g.dtype.newbyteorder('='))
    return None if w.tobytes() == g.tobytes() else 'values %r instead of %r' % (g.ravel()[:6], w.ravel()[:6])


def same_fields(want, got, where=''):
    if set(want) != set(got):
        return '%sfields missing %s extra %s' % (where, sorted(set(want) - set(got)), sorted(set(got) - set(want)))
    for k in want:
        d = value_same(want[k], got[k])
        if d:
            return '%s%s: %s' % (where, k, d)
    return None


def same_site(want, got):
    if sorted(want) != sorted(got):
        return 'record names %r instead of %r' % (sorted(got), sorted(want))
    for n in want:
        d = same_fields(want[n], got[n], n + '.')
        if d:
            return d
    return None


# ----------------------------------------------------------- shared alphabets
def geo_sets():
    """Small record mixes used where geometry is not the point."""
    G = M.Geo
    return [[G(1, 1, 1)], [G(2, 1, 1), G(2, 1, 1)], [G(3, 1, 1), G(2, 2, 3, '0:X'), G(1, 3, 2)],
            [G(1, 1, 0, ''), G(2, 2, 3, '0:X')], [G(2, 1, 2, 'x' * 300), G(2, 2, 0, '\u00fc')],
            [G(300, 1, 1), G(1, 1, 300)], [G(1, 260, 1), G(2, 1, 2)], [G(1 + i % 2, 1 + i % 3, i % 4) for i in range(13)]]


TEXTS = ['', 'a', ' ', 'a b ', '\u00e9\u00fc', '\u65e5\u672c', '\U0001F4E1', 'x' * 255, 'y' * 257, 'z' * 1000, 'q"\'\\',
         'line\nbreak\t', '0', 'None']


def numbers(t):
    """Extreme values of a numpy type."""
    t = np.dtype(t)
    if t.kind == 'b':
        return [np.bool_(True), np.bool_(False)]
    if t.kind in 'iu':
        i = np.iinfo(t)
        return [t.type(v) for v in sorted({i.min, i.max, 0, 1, i.max // 2, i.max // 2 + 1})]
    fl = [0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan')]
    if t.kind == 'f':
        f = np.finfo(t)
        return [t.type(v) for v in fl + [f.max, f.min, f.tiny, f.eps]]
    return [t.type(complex(a, b)) for a in fl for b in fl]
