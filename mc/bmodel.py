"""Independent reference model of the Borealis HDF5 data formats.

Nothing in this file is derived from pydarnio at run time: the field tables
are transcribed from the Borealis data-format documentation (as summarised in
pydarnio's class docs and docs/user/BorealisIO.md), and the restructuring
functions are written from the documented meaning of the two structures:

  site  : records = {record_name: {field: value}}
  array : one entry per field; shared fields once, per-record fields stacked
          with the record index first and padded to the longest record.
"""
from collections import OrderedDict
import numpy as np

FILETYPES = ('antennas_iq', 'bfiq', 'rawacf')
ALLTYPES = FILETYPES + ('rawrf',)
VERSIONS = ('v0.2', 'v0.3', 'v0.4', 'v0.5', 'v0.6', 'v0.7')


def gen(version):
    """0.2..0.4 share one format generation."""
    minor = int(version.split('.')[1])
    return max(minor, 4)


# ----------------------------------------------------------------- tables
A, B, R, F = 'antennas_iq', 'bfiq', 'rawacf', 'rawrf'
ALL4 = (A, B, R, F)
ABR = (A, B, R)

# field: (files, type) ; 'str' marks text attributes
_SCALARS_4 = {
    'borealis_git_hash': (ALL4, str), 'data_normalization_factor': (ABR, np.float64),
    'experiment_comment': (ALL4, str), 'experiment_id': (ALL4, np.int64),
    'experiment_name': (ALL4, str), 'first_range': ((B, R), np.float32),
    'first_range_rtt': ((B, R), np.float32), 'freq': (ABR, np.uint32),
    'int_time': (ALL4, np.float32), 'intf_antenna_count': (ALL4, np.uint32),
    'main_antenna_count': (ALL4, np.uint32), 'num_ranges': ((B,), np.uint32),
    'num_samps': ((A, B, F), np.uint32), 'num_sequences': (ALL4, np.int64),
    'num_slices': (ALL4, np.int64), 'range_sep': ((B, R), np.float32),
    'rx_center_freq': ((F,), np.float64), 'rx_sample_rate': (ALL4, np.float64),
    'samples_data_type': (ALL4, str), 'scan_start_marker': (ALL4, np.uint8),
    'slice_comment': (ABR, str), 'station': (ALL4, str),
    'tau_spacing': (ABR, np.uint32), 'tx_pulse_len': (ABR, np.uint32),
}
_ARRAYS_4 = {
    'antenna_arrays_order': ((A, B), np.str_), 'beam_azms': (ABR, np.float64),
    'beam_nums': (ABR, np.uint32), 'blanked_samples': ((B, R), np.uint32),
    'correlation_descriptors': ((R,), np.str_),
    'correlation_dimensions': ((R,), np.uint32), 'data': ((A, B, F), np.complex64),
    'data_descriptors': ((A, B, F), np.str_), 'data_dimensions': ((A, B, F), np.uint32),
    'intf_acfs': ((R,), np.complex64), 'lags': ((B, R), np.uint32),
    'main_acfs': ((R,), np.complex64), 'noise_at_freq': (ABR, np.float64),
    'pulse_phase_offset': ((A, B), np.float32), 'pulses': (ABR, np.uint32),
    'sqn_timestamps': (ALL4, np.float64), 'xcfs': ((R,), np.complex64),
}


def tables(version):
    g = gen(version)
    s = {k: (set(v[0]), v[1]) for k, v in _SCALARS_4.items()}
    a = {k: (set(v[0]), v[1]) for k, v in _ARRAYS_4.items()}
    if g >= 5:
        s['averaging_method'] = ({R}, str)
        s['scheduling_mode'] = (set(ALL4), str)
        s['slice_id'] = (set(ABR), np.uint32)
        s['slice_interfacing'] = (set(ABR), str)
        a['blanked_samples'] = (set(ALL4), np.uint32)
    if g >= 6:
        s['agc_status_word'] = (set(ALL4), np.uint32)
        s['lp_status_word'] = (set(ALL4), np.uint32)
        s['gps_locked'] = (set(ALL4), np.uint8)
        s['gps_to_system_time_diff'] = (set(ALL4), np.float64)
        s['experiment_id'] = (set(ALL4), np.int16)
    if g >= 7:
        s['gps_locked'] = (set(ALL4), np.bool_)
        s['scan_start_marker'] = (set(ALL4), np.bool_)
        for f in ('first_range', 'first_range_rtt', 'num_ranges', 'range_sep'):
            s[f][0].add(A)
        a['lags'][0].add(A)
        a.pop('correlation_descriptors')
        a.pop('correlation_dimensions')
        a['data_descriptors'] = (set(ALL4), np.bytes_)
        a['data_dimensions'] = (set(ALL4), np.uint32)
        a['antenna_arrays_order'] = ({A, B}, np.bytes_)
        a['tx_antenna_phases'] = (set(ALL4), np.complex64)
    return s, a


def site_fields(version, ftype):
    """(attributes, datasets) of one site-structured record."""
    s, a = tables(version)
    return ({k: t for k, (f, t) in s.items() if ftype in f},
            {k: t for k, (f, t) in a.items() if ftype in f})


_SHARED_4 = {'antenna_arrays_order', 'blanked_samples', 'borealis_git_hash',
             'data_normalization_factor', 'experiment_comment', 'experiment_id',
             'experiment_name', 'first_range', 'first_range_rtt', 'freq',
             'intf_antenna_count', 'lags', 'main_antenna_count', 'num_ranges',
             'num_samps', 'pulse_phase_offset', 'pulses', 'range_sep',
             'rx_sample_rate', 'samples_data_type', 'slice_comment', 'station',
             'tau_spacing', 'tx_pulse_len'}


def shared(version, ftype):
    """fields written once per file in the array structure."""
    g = gen(version)
    sh = set(_SHARED_4)
    if g >= 5:
        sh -= {'blanked_samples'}
        sh |= {'averaging_method', 'scheduling_mode', 'slice_id'}
    if g >= 6:
        sh -= {'pulse_phase_offset'}
    at, ds = site_fields(version, ftype)
    return {f for f in sh if f in at or f in ds}


def descr_names(version, ftype):
    if ftype == R and gen(version) < 7:
        return 'correlation_descriptors', 'correlation_dimensions'
    return 'data_descriptors', 'data_dimensions'


def site_only(version, ftype):
    return set(descr_names(version, ftype))


def array_only(version, ftype):
    d = {'num_beams', descr_names(version, ftype)[0]}
    if gen(version) >= 5:
        d.add('num_blanked_samples')
    return d


def per_record(version, ftype):
    at, ds = site_fields(version, ftype)
    return (set(at) | set(ds)) - shared(version, ftype) - site_only(version, ftype)


def array_fields(version, ftype):
    """(attributes, datasets) of an array-structured file."""
    at, ds = site_fields(version, ftype)
    sh = shared(version, ftype)
    attrs = {k: t for k, t in at.items() if k in sh}
    dsets = {k: t for k, t in ds.items() if k in sh}
    for k in per_record(version, ftype):
        dsets[k] = at[k] if k in at else ds[k]
    dn = descr_names(version, ftype)[0]
    dsets[dn] = ds[dn]
    dsets['num_beams'] = np.uint32
    if gen(version) >= 5:
        dsets['num_blanked_samples'] = np.uint32
    return attrs, dsets


DESCR_SITE = {A: ['num_antennas', 'num_sequences', 'num_samps'],
              B: ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'],
              R: ['num_beams', 'num_ranges', 'num_lags'],
              F: ['num_sequences', 'num_antennas', 'num_samps']}
DESCR_ARRAY = {A: ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'],
               B: ['num_records', 'num_antenna_arrays', 'max_num_sequences',
                   'max_num_beams', 'num_samps'],
               R: ['num_records', 'max_num_beams', 'num_ranges', 'num_lags']}
DATA = {A: ['data'], B: ['data'], F: ['data'], R: ['main_acfs', 'intf_acfs', 'xcfs']}


# --------------------------------------------------------------- generator
class Geo:
    """Geometry of one record: everything that may vary from record to record."""
    __slots__ = ('nseq', 'nbeam', 'nblank', 'iface')

    def __init__(self, nseq=2, nbeam=1, nblank=1, iface='0:SCAN'):
        self.nseq, self.nbeam, self.nblank, self.iface = nseq, nbeam, nblank, iface

    def tup(self):
        return (self.nseq, self.nbeam, self.nblank, self.iface)


class Shape:
    """File-wide geometry."""

    def __init__(self, nant=3, narr=2, nrange=2, nlag=3, nsamp=2, npulse=2):
        self.nant, self.narr, self.nrange = nant, narr, nrange
        self.nlag, self.nsamp, self.npulse = nlag, nsamp, npulse


def _num(base, n):
    return base + np.arange(n)


def make_record(version, ftype, ri, geo, shp=None, t0=1600000000.125, hash_suffix='.1-61-gc13ab34',
                dt=3.0, ppo='zeros'):
    """A valid site record number `ri` with geometry `geo`; all cells distinct
    across fields, records and positions so that any mix-up is visible."""
    shp = shp or Shape()
    at, ds = site_fields(version, ftype)
    r = {}
    v = {
        'borealis_git_hash': version + hash_suffix, 'data_normalization_factor': 9999999.25,
        'experiment_comment': 'comment with spaces', 'experiment_id': 151,
        'experiment_name': 'NormalScan', 'first_range': 180.5, 'first_range_rtt': 1200.75,
        'freq': 10500, 'int_time': 3.5 + ri, 'intf_antenna_count': 4, 'main_antenna_count': 16,
        'num_ranges': shp.nrange, 'num_samps': shp.nsamp, 'num_sequences': geo.nseq,
        'num_slices': 1 + ri, 'range_sep': 45.25, 'rx_center_freq': 12000.5,
        'rx_sample_rate': 3333.3333333333335, 'samples_data_type': 'complex float',
        'scan_start_marker': ri % 2 == 0, 'slice_comment': '', 'station': 'sas',
        'tau_spacing': 2400, 'tx_pulse_len': 300, 'averaging_method': 'mean',
        'scheduling_mode': 'common', 'slice_id': 3, 'slice_interfacing': geo.iface,
        'agc_status_word': 7 + ri, 'lp_status_word': 70 + ri, 'gps_locked': ri % 2 == 1,
        'gps_to_system_time_diff': 0.015625 * (ri + 1),
    }
    for k, t in at.items():
        r[k] = v[k] if t is str else t(v[k])
    base = 1000 * (ri + 1)
    if ftype == R:
        dims = (geo.nbeam, shp.nrange, shp.nlag)
    elif ftype == B:
        dims = (shp.narr, geo.nseq, geo.nbeam, shp.nsamp)
    elif ftype == A:
        dims = (shp.nant, geo.nseq, shp.nsamp)
    else:
        dims = (geo.nseq, shp.nant, shp.nsamp)
    n = int(np.prod(dims))
    pulses = np.array([0, 9, 12, 20, 22, 26, 27][:shp.npulse])
    for k, t in ds.items():
        if k == 'antenna_arrays_order':
            if ftype == B:
                x = np.array(['main', 'intf'][:shp.narr])
            else:
                x = np.array(['antenna_%d' % i for i in range(shp.nant)])
            r[k] = x.astype(t)
        elif k == 'beam_azms':
            r[k] = _num(base + 0.5, geo.nbeam).astype(t)
        elif k == 'beam_nums':
            r[k] = _num(base + 100, geo.nbeam).astype(t)
        elif k == 'blanked_samples':
            nb = geo.nblank if 'blanked_samples' not in shared(version, ftype) else 2
            r[k] = (_num(base + 200, nb) if 'blanked_samples' not in shared(version, ftype)
                    else _num(200, nb)).astype(t)
        elif k in ('correlation_descriptors', 'data_descriptors'):
            r[k] = np.array(DESCR_SITE[ftype]).astype(t)
        elif k in ('correlation_dimensions', 'data_dimensions'):
            r[k] = np.array(dims, dtype=t)
        elif k in DATA[ftype]:
            off = {'main_acfs': 0, 'intf_acfs': 0.25, 'xcfs': 0.5, 'data': 0}[k]
            x = (_num(base + off, n) + 1j * _num(-base - off, n)).astype(t)
            r[k] = x.reshape(dims) if (ftype == R and gen(version) >= 7) else x
        elif k == 'lags':
            r[k] = np.array([[0, i] for i in range(shp.nlag)], dtype=t).reshape(shp.nlag, 2)
        elif k == 'noise_at_freq':
            r[k] = _num(base + 0.125, geo.nseq).astype(t)
        elif k == 'pulse_phase_offset':
            if gen(version) < 6:
                r[k] = (_num(0.5, shp.npulse) if ppo == 'vals' else np.zeros(shp.npulse)).astype(t)
            elif ppo == 'zeros':
                r[k] = np.zeros(shp.npulse, dtype=t)
            elif ppo == 'vals1':
                r[k] = _num(base + 0.5, shp.npulse).astype(t)
            else:
                r[k] = _num(base + 0.5, geo.nseq * shp.npulse).reshape(geo.nseq, shp.npulse).astype(t)
        elif k == 'pulses':
            r[k] = pulses.astype(t)
        elif k == 'sqn_timestamps':
            r[k] = (t0 + dt * ri + 0.0625 * np.arange(geo.nseq)).astype(t)
        elif k == 'tx_antenna_phases':
            r[k] = (_num(base + 300, shp.nant) + 1j * _num(ri, shp.nant)).astype(t)
        else:
            raise KeyError(k)
    return r


def rec_name(rec):
    """Record names are the first sequence's time in milliseconds since the epoch."""
    return str(int(np.floor(rec['sqn_timestamps'][0] * 1000 + 0.5)))


def make_records(version, ftype, geos, shp=None, **kw):
    out = OrderedDict()
    for i, g in enumerate(geos):
        rec = make_record(version, ftype, i, g, shp, **kw)
        out[rec_name(rec)] = rec
    return out


# ---------------------------------------------------- reference restructure
def data_dims(version, ftype, rec):
    return tuple(int(x) for x in rec[descr_names(version, ftype)[1]])


def site_to_array(version, ftype, records):
    """Reference: returns {field: (values, valid_mask)}; cells outside the mask are padding."""
    sh = shared(version, ftype)
    names = sorted(records)
    first = records[names[0]]
    out = {f: (np.asarray(first[f]), None) for f in sh}
    at, ds = site_fields(version, ftype)
    for f in per_record(version, ftype):
        cells = []
        for n in names:
            x = np.asarray(records[n][f])
            if f in DATA[ftype]:
                x = x.reshape(data_dims(version, ftype, records[n]))
            cells.append(x)
        nd = max(c.ndim for c in cells)
        dims = tuple(max(c.shape[i] for c in cells) for i in range(nd))
        dt = object if at.get(f) is str else cells[0].dtype
        arr = np.zeros((len(names),) + dims, dtype=dt)
        mask = np.zeros((len(names),) + dims, dtype=bool)
        for i, c in enumerate(cells):
            sl = (i,) + tuple(slice(0, k) for k in c.shape)
            arr[sl] = c if dt is not object else str(c)
            mask[sl] = True
        out[f] = (arr, mask)
    out['num_beams'] = (np.array([len(records[n]['beam_nums']) for n in names]), None)
    if gen(version) >= 5:
        out['num_blanked_samples'] = (np.array([len(records[n]['blanked_samples']) for n in names]), None)
    out[descr_names(version, ftype)[0]] = (np.array(DESCR_ARRAY[ftype]), None)
    return out


# -------------------------------------------------------------- comparison
def is_text(x):
    x = np.asarray(x)
    return x.dtype.kind in 'SUO'


def text(x):
    x = np.asarray(x)
    def d(v):
        return v.decode('utf-8') if isinstance(v, bytes) else str(v)
    return [d(v) for v in x.ravel().tolist()], x.shape


def value_diff(want, got, exact_type=None, flat=False):
    """None when equal, else a short description."""
    try:
        if is_text(want):
            if not is_text(got):
                return 'expected text, got %r' % (type(got),)
            if text(want) != text(got):
                return 'text %r != %r' % (text(want), text(got))
            return None
        w, g = np.asarray(want), np.asarray(got)
        if flat:
            w, g = w.ravel(), g.ravel()
        if w.shape != g.shape:
            return 'shape %r != %r' % (w.shape, g.shape)
        if w.dtype != g.dtype:
            return 'dtype %r != %r' % (w.dtype, g.dtype)
        if not np.array_equal(w, g, equal_nan=w.dtype.kind in 'fc'):
            return 'values %s != %s' % (w.ravel()[:6], g.ravel()[:6])
        return None
    except Exception as e:      # a comparison that cannot be made is a difference
        return 'incomparable: %s' % e


def diff_records(version, ftype, want, got, names=True):
    """Differences between two site structures (list of strings)."""
    out = []
    if names and sorted(want) != sorted(got):
        return ['record names %r != %r' % (sorted(want), sorted(got))]
    if not names and len(want) != len(got):
        return ['%d records != %d' % (len(want), len(got))]
    for (nw, rw), (ng, rg) in zip(sorted(want.items()), sorted(got.items())):
        if set(rw) != set(rg):
            out.append('%s: fields missing %s extra %s' % (nw, sorted(set(rw) - set(rg)), sorted(set(rg) - set(rw))))
        for f in sorted(set(rw) & set(rg)):
            flat = False
            d = value_diff(rw[f], rg[f], flat=flat)
            if d:
                out.append('%s[%s]: %s' % (nw, f, d))
    return out


def diff_arrays(version, ftype, ref, got, check_padding=True):
    """ref: result of site_to_array; got: array structure from the library."""
    out = []
    if set(ref) != set(got):
        out.append('array fields missing %s extra %s' % (sorted(set(ref) - set(got)), sorted(set(got) - set(ref))))
    for f in sorted(set(ref) & set(got)):
        want, mask = ref[f]
        g = got[f]
        if mask is None:
            if f in ('num_beams', 'num_blanked_samples'):
                ga = np.asarray(g)
                if ga.shape != want.shape or not np.array_equal(ga, want):
                    out.append('%s: %s != %s' % (f, want, g))
                continue
            d = value_diff(want, g)
            if d:
                out.append('%s: %s' % (f, d))
            continue
        g = np.asarray(g)
        if g.shape != want.shape:
            out.append('%s: shape %s != %s' % (f, want.shape, g.shape))
            continue
        if want.dtype == object:
            w = [str(x) for x in want[mask].tolist()]
            if w != text(g[mask])[0]:
                out.append('%s: %r != %r' % (f, w, text(g[mask])[0]))
            continue
        if g.dtype != want.dtype:
            out.append('%s: dtype %s != %s' % (f, want.dtype, g.dtype))
        if not np.array_equal(want[mask], g[mask]):
            out.append('%s: values differ %s != %s' % (f, want[mask][:6], g[mask][:6]))
        if check_padding and (~mask).any():
            pad = g[~mask]
            ok = np.isnan(pad) if pad.dtype.kind in 'fc' else (
                pad == (-1 if pad.dtype == np.int64 else 0))
            if not np.all(ok):
                out.append('%s: padding contains data %s' % (f, pad[:6]))
    return out


def to_array_data(version, ftype, records):
    """Array structure as a user would hold it, built from the reference."""
    at, ds = array_fields(version, ftype)
    out = OrderedDict()
    for f, (x, mask) in site_to_array(version, ftype, records).items():
        if f in at:
            out[f] = str(x) if at[f] is str else at[f](x.item() if hasattr(x, 'item') else x)
        else:
            t = ds[f]
            if x.dtype == object:
                out[f] = x.astype(np.str_)
            elif t in (np.str_, np.bytes_):
                out[f] = x.astype(t)
            else:
                y = x.astype(t)
                if mask is not None and (~mask).any():
                    y[~mask] = np.nan if y.dtype.kind in 'fc' else (-1 if y.dtype == np.int64 else 0)
                out[f] = y
    return out
