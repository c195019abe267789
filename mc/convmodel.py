"""Reference conversion of Borealis records to SuperDARN records (C14-C16).

Written from docs/user/Borealis2SuperDARN.md, RFC 0008 / 0027 and the comments
that document each field; nothing is taken from pydarnio at run time.
"""
import calendar
import math
from fractions import Fraction
import numpy as np
import bmodel as M
import dmapcodec as dc
import sdmodel

STID = {'tst': 0, 'gbr': 1, 'sch': 2, 'kap': 3, 'hal': 4, 'sas': 5, 'pgr': 6, 'kod': 7, 'sto': 8, 'pyk': 9, 'han': 10,
        'san': 11, 'sys': 12, 'sye': 13, 'tig': 14, 'ker': 15, 'ksr': 16, 'unw': 18, 'zho': 19, 'mcm': 20, 'fir': 21,
        'sps': 22, 'bpk': 24, 'wal': 32, 'bks': 33, 'hok': 40, 'hkw': 41, 'inv': 64, 'rkn': 65, 'cly': 66, 'dce': 96,
        'svb': 128, 'fhw': 204, 'fhe': 205, 'cvw': 206, 'cve': 207, 'adw': 208, 'ade': 209, 'ekb': 512}
I16 = 32767


def blanked(version, pulses, spacing, double):
    b = [int(p) * spacing for p in pulses]
    return sorted(b + [x + 1 for x in b]) if double else b


def make(version, ftype, nrec=2, beams=(1,), seqs=(2,), shp=None, t0=1600000000.125, double=(False,), over=None,
         per=None, scale=1, data=None, **kw):
    """Convertible site records.  `over`: fields to replace in every record
    (value or function of the record), `per`: {record: {field: value}}."""
    shp = shp or M.Shape()
    g = M.gen(version)
    out = type(M.make_records(version, ftype, []))()
    at, ds = M.site_fields(version, ftype)
    for i in range(nrec):
        geo = M.Geo(seqs[i % len(seqs)], beams[i % len(beams)], 1, '0:SCAN')
        r = M.make_record(version, ftype, i, geo, shp, t0=t0, **kw)
        if 'first_range' in r:
            r['first_range'] = at['first_range'](180.25)
        norm = r['data_normalization_factor']
        n = int(np.prod(M.data_dims(version, ftype, r)))
        for j, f in enumerate(M.DATA[ftype]):
            k = np.arange(n)
            if ftype == M.B:
                vals = (k + 100 * i + 0.5) - 1j * (k + 100 * i + 50.5)
                if data is not None:
                    vals = np.resize(np.array(data, dtype=complex), n)
                x = vals * float(norm) / I16 / scale
            else:
                x = (k + 1.25 + 1000 * i + 0.125 * j) * (1 - 2j) * float(norm) ** 2 / I16 ** 2
            r[f] = x.astype(np.complex64).reshape(r[f].shape)
        for f, v in list((over or {}).items()) + list((per or {}).get(i, {}).items()):
            if f in at or f in ds:
                r[f] = v(r) if callable(v) else v
        if 'blanked_samples' in r and 'blanked_samples' not in (over or {}) and 'blanked_samples' not in (per or {}).get(i, {}):
            sp = int(r['tau_spacing']) // int(r['tx_pulse_len'])
            dbl = double[i % len(double)] and g >= 6
            r['blanked_samples'] = np.array(blanked(version, r['pulses'], sp, dbl), dtype=ds['blanked_samples'])
        out[str(int(math.floor(float(r['sqn_timestamps'][0]) * 1000)))] = r
    return out


# ------------------------------------------------------------------ expected
def civil(sec):
    """(year, month, day, hour, minute, second, weekday) of unix second `sec`."""
    days, s = divmod(sec, 86400)
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (1 if m <= 2 else 0)
    return y, m, d, s // 3600, s % 3600 // 60, s % 60, (days + 4) % 7


def ctime(sec):
    y, m, d, hh, mm, ss, wd = civil(sec)
    return '%s %s %2d %02d:%02d:%02d %d' % (['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'][wd],
                                            ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
                                             'Nov', 'Dec'][m - 1], d, hh, mm, ss, y)


def near(x):
    """integers that truncation of x may give when x is computed in floating point"""
    k = int(round(x))
    return {k} if abs(x - k) < 1e-4 else {int(x)}


def s16(x):
    """the 16-bit pattern of x, signed"""
    return (int(x) + 0x8000) % 0x10000 - 0x8000


def common(version, ftype, key, r, b, chan, scale, origin):
    tag = r['borealis_git_hash']
    major, minor = tag.split('-')[0].split('.')[:2]
    rate = 1e6 / float(r['rx_sample_rate'])
    e = {
        'radar.revision.major': {int(major[1:])}, 'radar.revision.minor': {int(minor)}, 'origin.code': {100},
        'origin.command': {'Borealis %s %s' % (tag, r['experiment_name'])},
        'cp': {int(r['experiment_id'])}, 'stid': {STID[r['station']]}, 'nave': {int(r['num_sequences'])}, 'atten': {0},
        'lagfr': near(float(r['first_range_rtt'])),
        'smsep': {int(round(rate))} if abs(rate - round(rate)) < 1e-4 else {int(rate), int(rate) + 1},
        'ercod': {0}, 'stat.agc': {s16(r.get('agc_status_word', 0))}, 'stat.lopwr': {s16(r.get('lp_status_word', 0))},
        'noise.search': {float(np.float32(r['noise_at_freq'][0]))}, 'noise.mean': {0.0}, 'channel': {chan},
        'bmnum': {int(r['beam_nums'][b])}, 'bmazm': {float(np.float32(r['beam_azms'][b]))},
        'scan': {int(r['scan_start_marker'])}, 'offset': {0}, 'rxrise': {0}, 'txpl': {int(r['tx_pulse_len'])},
        'mpinc': {int(r['tau_spacing'])}, 'mppul': {len(r['pulses'])}, 'mplgs': {len(r['lags']) - 1},
        'frang': {int(round(float(r['first_range'])))}, 'rsep': {int(round(float(r['range_sep'])))},
        'tfreq': {int(r['freq'])}, 'mxpwr': {-1}, 'lvmax': {20000},
        'ptab': ('h', (len(r['pulses']),), np.asarray(r['pulses']).astype(np.int16)),
        'ltab': ('h', r['lags'].shape, np.asarray(r['lags']).astype(np.int16)),
    }
    return e


CELLS = {'h': np.int16, 'i': np.int32, 'f': np.float32}


def expected(version, ftype, key, r, b, chan, scale, origin):
    e = common(version, ftype, key, r, b, chan, scale, origin)
    dims = M.data_dims(version, ftype, r)
    norm = float(r['data_normalization_factor'])
    if ftype == M.R:
        f = {}
        for k in M.DATA[M.R]:
            f[k] = np.asarray(r[k]).reshape(dims).astype(np.complex128) * (I16 ** 2 * scale / norm ** 2)
        nr, nl = dims[1], dims[2]

        def iq(x):
            y = np.empty((nr, nl - 1, 2))
            y[..., 0], y[..., 1] = x[b, :, :-1].real, x[b, :, :-1].imag
            return ('f', y.shape, y)
        txpow = -1
        if 'tx_antenna_phases' in r:
            txpow = s16(sum(1 << i for i, p in enumerate(r['tx_antenna_phases']) if p != 0))
        e.update({'txpow': {txpow}, 'nrang': {nr}, 'xcf': {1}, 'rawacf.revision.major': {1}, 'rawacf.revision.minor': {0},
                  'thr': {0.0}, 'pwr0': ('f', (nr,), np.abs(f['main_acfs'][b, :, 0])),
                  'slist': ('h', (nr,), np.arange(nr)), 'acfd': iq(f['main_acfs']), 'xcfd': iq(f['xcfs'])})
        return e
    nant, nseq, nbeam, nsamp = dims
    x = np.asarray(r['data']).reshape(dims).astype(np.complex128) / norm * I16 * scale
    flat = []
    for s in range(nseq):
        for a in range(nant):
            for i in range(nsamp):
                for v in (x[a, s, b, i].real, x[a, s, b, i].imag):
                    flat.append(int(max(-32768, min(32767, v))) if not math.isinf(v) else (32767 if v > 0 else -32768))
    off = 2 * nant * nsamp
    skip = float(r['first_range']) / float(r['range_sep'])
    order = np.asarray(r['antenna_arrays_order']).astype(str).tolist()
    e.update({'txpow': {-1}, 'nrang': {int(r['num_ranges'])}, 'xcf': {int('intf' in order)},
              'iqdata.revision.major': {1}, 'iqdata.revision.minor': {0}, 'seqnum': {nseq}, 'chnnum': {nant},
              'smpnum': {nsamp}, 'skpnum': near(skip), 'tatten': ('h', (nseq,), np.zeros(nseq)),
              'tnoise': ('f', (nseq,), np.asarray(r['noise_at_freq'])),
              'toff': ('i', (nseq,), np.arange(nseq) * off), 'tsze': ('i', (nseq,), np.full(nseq, off)),
              'data': ('h', (len(flat),), np.array(flat))})
    return e


def us(t):
    return Fraction(float(t)) * 10 ** 6


def check_record(version, ftype, key, r, b, chan, scale, origin, rec):
    """None or what is wrong with the SuperDARN record `rec` = (scalars, arrays)."""
    table = sdmodel.fields('rawacf' if ftype == M.R else 'iqdat')
    e = expected(version, ftype, key, r, b, chan, scale, origin)
    sc = {n: (dc.LETTER[c], v) for n, c, v in rec[0]}
    ar = {n: (dc.LETTER[c], shape, raw) for n, c, shape, raw in rec[1]}
    special = {'origin.time', 'combf', 'time.yr', 'time.mo', 'time.dy', 'time.hr', 'time.mt', 'time.sc', 'time.us',
               'intt.sc', 'intt.us'} | ({'tsc', 'tus'} if ftype == M.B else set())
    want = set(e) | special
    if set(sc) | set(ar) != want:
        return 'fields %s' % sorted((set(sc) | set(ar)) ^ want)
    for n, (c, v) in sc.items():
        if c != table[n]:
            return '%s has type %s' % (n, c)
    for n, w in e.items():
        if isinstance(w, set):
            if n not in sc:
                return '%s is an array' % n
            if sc[n][1] not in w:
                return '%s is %r, not %r' % (n, sc[n][1], w)
            continue
        if n not in ar:
            return '%s is not an array' % n
        c, shape, raw = ar[n]
        if c != w[0]:
            return '%s has type %s' % (n, c)
        if tuple(shape) != tuple(w[1]):
            return '%s has shape %r, not %r' % (n, shape, w[1])
        got = np.frombuffer(raw, CELLS[c]).reshape(shape)
        exp = np.asarray(w[2])
        if c == 'f':
            tol = 3e-6 * np.maximum(np.abs(exp), 1e-30)
            if n in ('acfd', 'xcfd'):
                tol = 3e-6 * np.abs(exp).max(axis=-1, keepdims=True) if exp.size else 0
            ok = bool(np.all((np.abs(got.astype(np.float64) - exp) <= tol) | (np.isnan(got) & np.isnan(exp)) | (got == exp)))
        else:
            ok = np.array_equal(got, exp)
        if not ok:
            return '%s is %r, not %r' % (n, got.ravel()[:24].tolist(), exp.ravel()[:24].tolist())
    # --- times
    t = us(r['sqn_timestamps'][0])
    g = {k: sc['time.' + k][1] for k in ('yr', 'mo', 'dy', 'hr', 'mt', 'sc', 'us')}
    if not (1 <= g['mo'] <= 12 and 1 <= g['dy'] <= 31 and 0 <= g['hr'] < 24 and 0 <= g['mt'] < 60 and 0 <= g['sc'] < 60
            and 0 <= g['us'] < 10 ** 6):
        return 'time %r' % (g,)
    sec = calendar.timegm((g['yr'], g['mo'], g['dy'], g['hr'], g['mt'], g['sc']))
    if abs(sec * 10 ** 6 + g['us'] - t) > 1:
        return 'time %r is not that of the first sequence, %r' % (g, float(r['sqn_timestamps'][0]))
    base = int(t // 10 ** 6)
    if sc['origin.time'][1] not in (ctime(sec), ctime(base)):
        return 'origin.time is %r, not %r' % (sc['origin.time'][1], ctime(base))
    it = us(r['int_time'])
    if not 0 <= sc['intt.us'][1] <= 10 ** 6 or abs(sc['intt.sc'][1] * 10 ** 6 + sc['intt.us'][1] - it) > 1:
        return 'integration time %r + %r us is not %r' % (sc['intt.sc'][1], sc['intt.us'][1], r['int_time'])
    if ftype == M.B:
        n = len(r['sqn_timestamps'])
        for k in ('tsc', 'tus'):
            if k not in ar or ar[k][0] != 'i' or tuple(ar[k][1]) != (n,):
                return '%s is %r' % (k, ar.get(k))
        tsc, tus = (np.frombuffer(ar[k][2], np.int32) for k in ('tsc', 'tus'))
        for i, x in enumerate(r['sqn_timestamps']):
            if not 0 <= tus[i] <= 10 ** 6 or abs(int(tsc[i]) * 10 ** 6 + int(tus[i]) - us(x)) > 1:
                return 'sequence %d at %d s %d us is not %r' % (i, tsc[i], tus[i], float(x))
    # --- comment
    pos = 0
    for piece in (origin, ' record ' + key, 'scaling factor = ' + str(scale),
                  'Number of beams in record: ' + str(len(r['beam_nums'])), r['experiment_comment'], r['slice_comment']):
        k = sc['combf'][1].find(piece, pos)
        if k < 0:
            return 'combf %r lacks %r' % (sc['combf'][1], piece)
        pos = k + len(piece)
    return None


def check_file(version, ftype, recs, chan, scale, origin, raw):
    """Compare the bytes of a converted file with the records it came from."""
    got = dc.decode(raw)
    want = [(k, r, b) for k, r in recs.items() for b in range(len(r['beam_nums']))]
    if len(got) != len(want):
        return 'has %d records instead of %d' % (len(got), len(want))
    for i, ((k, r, b), rec) in enumerate(zip(want, got)):
        x = check_record(version, ftype, k, r, b, chan, scale, origin, rec)
        if x:
            return 'record %d (Borealis record %s beam index %d): %s' % (i, k, b, x)
    return None


class Harness:
    """Runs one conversion on the real code and judges the result."""

    def __init__(self, ctx, version, ftype):
        self.ctx, self.v, self.ft = ctx, version, ftype
        self.src = ctx.path('src.hdf5')
        self.dst = ctx.path('dst.' + ('rawacf' if ftype == M.R else 'iqdat'))

    def convert(self, key, recs, structure, chan=3, scale=1, arg='named', given=None, legacy=False):
        import os
        import bfile as bf
        import pydarnio as P
        k = '%s:%s:%s %s arg=%s' % (self.v, self.ft, structure, key, arg)
        self.ctx.ev((k,))
        self.ctx.sample(k)
        if structure == 'site':
            bf.write_site(self.src, recs, legacy=legacy)
        else:
            bf.write_array(self.src, M.to_array_data(self.v, self.ft, recs), legacy=legacy)
        h = bf.digest(self.src)
        if os.path.exists(self.dst):
            os.unlink(self.dst)
        kw = {}
        if scale != 1 or arg == 'named':
            kw['scaling_factor'] = scale
        if arg == 'named':
            kw['borealis_file_structure'] = structure
        if given is None and M.gen(self.v) < 5:
            given = chan
        if given is not None:
            kw['borealis_slice_id'] = given
        try:
            c = P.BorealisConvert(self.src, self.ft, self.dst, **kw)
        except Exception as err:
            self.ctx.bad(k, '%s: refused: %s: %s' % (k, type(err).__name__, str(err)[-400:]))
            return None
        if bf.digest(self.src) != h:
            self.ctx.bad(k, '%s: the source was changed' % k)
        if not os.path.exists(self.dst):
            self.ctx.bad(k, '%s: no output' % k)
            return None
        with open(self.dst, 'rb') as f:
            raw = f.read()
        try:
            x = check_file(self.v, self.ft, recs, chan, scale, self.src, raw)
        except (dc.Malformed, dc.Unsupported) as err:
            x = 'output is not a DMAP file: %s' % err
        if x:
            self.ctx.bad(k, '%s: %s' % (k, x))
            return None
        name = 'rawacf' if self.ft == M.R else 'iqdat'
        try:
            got = sdmodel.read(P.SDarnRead(self.dst), name)
        except Exception as err:
            self.ctx.bad(k, '%s: the SuperDARN reader refuses the output: %s: %s' % (k, type(err).__name__, str(err)[-300:]))
            return None
        ref = dc.decode(raw)
        if len(got) != len(ref):
            self.ctx.bad(k, '%s: the reader returns %d of %d records' % (k, len(got), len(ref)))
        # records the converter exposes
        try:
            ex = P.dmap2dict(c.sdarn_dmap_records)
            x = None if len(ex) == len(ref) else 'number of records'
            for i in range(len(ref)):
                x = x or dc.diff_dicts([ref[i]], [ex[i]]) or self.loose(ref[i], c.sdarn_dict[i])
            if len(c.sdarn_dict) != len(ref):
                x = 'number of records in sdarn_dict'
        except Exception as err:
            x = '%s: %s' % (type(err).__name__, err)
        if x:
            self.ctx.bad(k, '%s: exposed records differ from the file: %s' % (k, x))
        if c.sdarn_filetype != name or c.scaling_factor != scale or int(c.borealis_slice_id) != chan:
            self.ctx.bad(k, '%s: converter reports %r %r %r' % (k, c.sdarn_filetype, c.scaling_factor, c.borealis_slice_id))
        return raw

    @staticmethod
    def loose(ref, d):
        """values of the exposed dictionary against the file"""
        if set(d) != {x[0] for x in ref[0] + ref[1]}:
            return 'sdarn_dict fields %r' % (set(d) ^ {x[0] for x in ref[0] + ref[1]},)
        for n, c, v in ref[0]:
            if d[n] != v:
                return 'sdarn_dict %s: %r vs %r' % (n, d[n], v)
        for n, c, shape, raw in ref[1]:
            a = np.frombuffer(raw, dc.CODES[c][2]).reshape(shape)
            if np.shape(d[n]) != a.shape or not np.array_equal(np.asarray(d[n]), a, equal_nan=a.dtype.kind == 'f'):
                return 'sdarn_dict %s: %r vs %r' % (n, d[n], a)
        return None
