"""The space of conversions explored by C14 and C15."""
import itertools
import numpy as np
import bmodel as M
import convmodel as cm

T = 1600000000.125
TIMES = [T, 100000.5, 100000000.0, 946684799.984375, 951782400.015625, 978307199.5, 1000000000.0, 1077926399.75, 1230767999.984375,
         1483228800.0, 1582934399.5, 1582934400.25, 1583020800.125, 1577836799.9921875, 1625097600.000001,
         1625097599.9992, 1614556799.25, 1699999999.0001, 2147483640.5]
SCALES = [1, 2, 10, 0.5, 0.125, 3]
TAGS = ['', '.0', '.1', '.10-3-gabcdef0', '-61-gc13ab34', '.1-dirty']


def cases(ft, tier):
    versions = list(M.VERSIONS)
    for v in versions:
        for st in ('site', 'array'):
            for part in range(4):
                yield ['geo', v, ft, st, part, tier]
            yield ['values', v, ft, st]
            yield ['times', v, ft, st]
            yield ['stations', v, ft, st]
            yield ['scale', v, ft, st]
            yield ['large', v, ft, st]
            if ft == 'rawacf' and M.gen(v) >= 7:
                yield ['phases', v, ft, st]
            if ft == 'bfiq':
                yield ['saturate', v, ft, st]


def shapes(ft):
    if ft == 'rawacf':
        for nr, nl, npu in itertools.product((1, 2, 3), (2, 3, 4), (1, 2, 3)):
            yield M.Shape(2, 2, nr, nl, 2, npu), (nr, nl, npu)
    else:
        for na, ns, nl, npu in itertools.product((1, 2), (1, 2, 3), (2, 3), (1, 3)):
            yield M.Shape(2, na, 2, nl, ns, npu), (na, ns, nl, npu)


def geos(ft, tier):
    bs = [(1,), (2,), (3,), (1, 2), (2, 1), (3, 1), (1, 3)]
    ss = [(1,), (2,), (3,), (1, 2), (2, 1), (1, 3), (3, 2)]
    n = 3 if tier == 'thorough' else 2
    for b in bs:
        for s in (ss if ft == 'bfiq' or tier == 'thorough' else [(1,), (2, 1), (1, 3)]):
            for nrec in range(1, n + 1):
                if nrec >= max(len(b), len(s)) or nrec == n:
                    yield nrec, b, s


def run(case, ctx):
    fam, v, ft, st = case[:4]
    h = cm.Harness(ctx, v, ft)
    at, ds = M.site_fields(v, ft)
    if fam == 'geo':
        part, tier = case[4:]
        n = 0
        for (shp, sk), (nrec, b, s) in itertools.product(shapes(ft), geos(ft, tier)):
            n += 1
            if n % 4 != part:
                continue
            dbl = [(False,), (True,), (True, False), (False, True)][n // 4 % 4] if st == 'site' or M.gen(v) >= 5 else (False,)
            recs = cm.make(v, ft, nrec, b, s, shp, double=dbl)
            h.convert('shape=%s n=%d beams=%s seqs=%s blank=%s' % (sk, nrec, b, s, dbl), recs, st,
                      arg='named' if n // 4 % 3 else 'detected')
    elif fam == 'times':
        for t in TIMES:
            for s in ((1,), (3,), (1, 2)):
                for rate in (0.0625, 1 / 3., 0.1):
                    recs = cm.make(v, ft, 2, (1, 2), s, t0=t)
                    if rate != 0.0625:
                        for r in recs.values():
                            q = r['sqn_timestamps']
                            q[1:] = q[0] + rate * np.arange(1, len(q))
                    h.convert('t0=%r seqs=%s rate=%.3f' % (t, s, rate), recs, st)
        for it in (0, 1, 3, 0.5, 3.7, 2.9, 0.1, 59.984375, 0.000001, 100.25):
            recs = cm.make(v, ft, 2, over={'int_time': at['int_time'](it)})
            h.convert('int_time=%r' % it, recs, st)
    elif fam == 'stations':
        for code in sorted(cm.STID):
            h.convert('station %s' % code, cm.make(v, ft, 1, over={'station': code}), st)
        for tag in TAGS:
            h.convert('tag %r' % tag, cm.make(v, ft, 2, hash_suffix=tag), st)
            h.convert('tag %r' % tag, cm.make(v, ft, 2, hash_suffix=tag), st, arg='detected')
        for chan in (0, 1, 3, 7, 255):
            over = {'slice_id': np.uint32(chan)}
            recs = cm.make(v, ft, 2, over=over)
            h.convert('slice %d' % chan, recs, st, chan)
            h.convert('slice %d given as text' % chan, recs, st, chan, given=str(chan))
            if M.gen(v) >= 5:
                h.convert('slice %d, 9 given' % chan, recs, st, chan, given=9)
            h.convert('slice %d detected' % chan, recs, st, chan, arg='detected')
        for legacy in (False, True):
            h.convert('legacy=%s' % legacy, cm.make(v, ft, 3, (1, 2), (2, 1)), st, legacy=legacy)
    elif fam == 'large':
        # many records, beams and sequences; a realistic number of ranges, lags, samples and pulses
        for nrec, b, s in ((13, (1, 2), (1, 2, 3)), (26, (1,), (1,)), (2, (16, 1), (1, 2)), (2, (1, 300), (1,)), (3, (1,), (40, 1, 300)), (11, (2,), (12, 11))):
            h.convert('large %d %s %s' % (nrec, b, s), cm.make(v, ft, nrec, b, s), st)
            h.convert('large %d %s %s detected' % (nrec, b, s), cm.make(v, ft, nrec, b, s), st, arg='detected')
        big = M.Shape(2, 2, 100, 24, 300, 8) if ft == 'bfiq' else M.Shape(2, 2, 100, 24, 2, 8)
        h.convert('large shape', cm.make(v, ft, 2, (2, 3), (2, 5), big), st)
        for n in range(1, 12):
            h.convert('large %d lags %d pulses' % (n, 12 - n), cm.make(v, ft, 2, (1, 2), (2, 1), M.Shape(2, 2, 1 + n % 5 * 7, n + 1, 9 + n, 12 - n)), st)
    elif fam == 'scale':
        for sc in SCALES:
            for nb in ((1,), (2, 1)):
                recs = cm.make(v, ft, 2, nb, scale=sc if ft == 'bfiq' else 1)
                h.convert('scale=%r beams=%s' % (sc, nb), recs, st, scale=sc)
                h.convert('scale=%r beams=%s' % (sc, nb), recs, st, scale=sc, arg='detected')
        for norm in (1.0, 2.0, 32767.0, 0.25, 1e7, 9999999.25):
            recs = cm.make(v, ft, 2)
            for i, r in enumerate(recs.values()):
                for f in M.DATA[ft]:
                    p = 1 if ft == 'bfiq' else 2
                    r[f] = (r[f].astype(np.complex128) / float(r['data_normalization_factor']) ** p * norm ** p).astype(np.complex64)
                r['data_normalization_factor'] = at['data_normalization_factor'](norm)
            h.convert('norm=%r' % norm, recs, st)
    elif fam == 'phases':
        for n in (1, 2, 3, 4):
            for bits in range(1 << n):
                ph = np.array([(0.5 - 0.25j) * (bits >> i & 1) for i in range(n)], dtype=np.complex64)
                h.convert('antennas %s' % bin(bits), cm.make(v, ft, 2, over={'tx_antenna_phases': ph}), st)
        for bits in [0, 1, 0x8000, 0x7fff, 0xffff, 0x5555, 0xaaaa, 0xfffe] + [1 << i for i in range(16)]:
            ph = np.array([1j * (bits >> i & 1) for i in range(16)], dtype=np.complex64)
            h.convert('antennas %s' % bin(bits), cm.make(v, ft, 1, over={'tx_antenna_phases': ph}), st)
            per = {0: {'tx_antenna_phases': ph}, 1: {'tx_antenna_phases': ph[::-1].copy()}}
            h.convert('antennas %s and reversed' % bin(bits), cm.make(v, ft, 2, per=per), st)
    elif fam == 'saturate':
        edge = [32766.5, 32767.0, 32767.5, 32768.5, 40000.5, 65535.5, 65536.5, 1e6, 1e9, 2147483904.0, 4294967808.0, 3e12, 1e20, 0.5, 0.0, 0.25, -0.5, -0.75]
        vals = edge + [-x for x in edge] + [32765.5, -32766.5, -32769.5]
        cells = [a + 1j * b for a in vals for b in (vals[0], -vals[2], 0.5)] + [b + 1j * a for a in vals for b in (vals[3], -0.5)]
        for na, nb, nq in itertools.product((1, 2), (1, 2), (1, 3)):
            shp = M.Shape(2, na, 2, 3, -(-len(cells) // (na * nb * nq)), 2)
            for sc in (1, 10):
                # exact integers in single precision may fall on either side: keep them off
                use = [complex(x.real if abs(x.real) != 32767.0 else 32767.25, x.imag if abs(x.imag) != 32767.0 else -32768.25)
                       for x in cells]
                recs = cm.make(v, ft, 1, (nb,), (nq,), shp, data=use, scale=sc)
                h.convert('saturate %d %d %d scale=%d' % (na, nb, nq, sc), recs, st, scale=sc)
    elif fam == 'values':
        alts = {
            'experiment_id': [0, 1, -1, -3000, 32767, -32768], 'first_range': [0, 180, 179.75, 90.25, 179.25],
            'first_range_rtt': [0, 1200, 1200.75, 599.25], 'freq': [8000, 10500, 20000, 32767], 'range_sep': [15, 45, 44.75, 30.25],
            'rx_sample_rate': [3333.3333333333335, 10000.0, 1e6 / 60, 1e6 / 7, 1e6 / 14, 1e6, 5000.0],
            'scan_start_marker': [0, 1], 'num_ranges': [1, 75, 100, 225], 'experiment_comment': ['', '\u00e9', 'x' * 300],
            'slice_comment': ['', 'two words', '\u65e5'], 'experiment_name': ['', 'NormalScan', '\u00fc' * 5],
            'agc_status_word': [0, 1, 0x7fff, 0x8000, 0xffff], 'lp_status_word': [0, 2, 0x8001],
        }
        for f in sorted(alts):
            if f not in at:
                continue
            for x in alts[f]:
                if f == 'num_ranges' and ft != 'bfiq':
                    continue
                y = x if at[f] is str else at[f](x)
                h.convert('%s=%r' % (f, x if not isinstance(x, str) else x[:8]), cm.make(v, ft, 2, over={f: y}), st)
                if f not in M.shared(v, ft):
                    h.convert('%s=%r in record 1' % (f, str(x)[:8]), cm.make(v, ft, 3, per={1: {f: y}}), st)
        for nums in ([0], [15, 0], [7, 3, 11], [0, 0], [23, 1]):
            azm = np.array([-26.25, 0.0, 3.24])[:len(nums)]
            over = {'beam_nums': np.array(nums, np.uint32), 'beam_azms': azm}
            h.convert('beams %s' % nums, cm.make(v, ft, 2, (len(nums),), over=over), st)
        for tau, tx in ((2400, 300), (1500, 300), (300, 300), (1500, 100), (2400, 60), (1800, 150)):
            for d in (False, True):
                over = {'tau_spacing': at['tau_spacing'](tau), 'tx_pulse_len': at['tx_pulse_len'](tx)}
                for npu in (1, 2, 7):
                    recs = cm.make(v, ft, 2, shp=M.Shape(npulse=npu), double=(d,), over=over)
                    h.convert('tau=%d tx=%d double=%s pulses=%d' % (tau, tx, d, npu), recs, st)
        for lags in ([[0, 0], [26, 27], [27, 27]], [[0, 0], [42, 43], [22, 24], [24, 27], [43, 43]]):
            shp = M.Shape(nlag=len(lags))
            h.convert('lags %s' % lags, cm.make(v, ft, 2, shp=shp, over={'lags': np.array(lags, np.uint32)}), st)
        if ft == 'bfiq':
            t = ds['antenna_arrays_order']
            for order in (['main'], ['intf'], ['main', 'intf'], ['intf', 'main']):
                recs = cm.make(v, ft, 2, shp=M.Shape(narr=len(order)), over={'antenna_arrays_order': np.array(order).astype(t)})
                h.convert('arrays %s' % order, recs, st)
