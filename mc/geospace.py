"""Record mixes explored by C10 and C11 (also parts of C14, C15)."""
import itertools
import bmodel as M

ALLGEO = list(itertools.product((1, 2, 3), (1, 2, 3), (0, 1, 2)))       # nseq, nbeam, nblank
QUICKGEO = [i for i, g in enumerate(ALLGEO) if g[1] < 3]                  # up to two beams
IFACE = ['0:SCAN', '', 'x' * 300, '\u00e9 1:PULSE']


def geos(idx):
    """Geometries by index, with texts of different lengths per record."""
    return [M.Geo(*ALLGEO[i], IFACE[(i + k) % len(IFACE)]) for k, i in enumerate(idx)]


def ppos(version, ftype):
    if 'pulse_phase_offset' not in M.site_fields(version, ftype)[1]:
        return ['zeros']
    return ['zeros', 'vals'] if M.gen(version) < 6 else ['zeros', 'vals1', 'two']


def relevant(version, ftype, idx):
    """Canonical representative: blanked samples vary per record from v0.5 on only."""
    if M.gen(version) < 5:
        return all(ALLGEO[i][2] == 1 for i in idx)
    return True


def space(tier):
    """(version, filetype, first index, number of records)"""
    for v in ('v0.4', 'v0.5', 'v0.6', 'v0.7'):
        for ft in M.FILETYPES:
            for i in range(len(ALLGEO)):
                if relevant(v, ft, (i,)) and (tier != 'quick' or i in QUICKGEO):
                    yield ['pairs', v, ft, i, tier]
            if tier == 'thorough':
                for i in range(len(ALLGEO)):
                    if relevant(v, ft, (i,)):
                        yield ['triples', v, ft, i]
            yield ['shapes', v, ft, tier]
            yield ['long', v, ft, tier]
            yield ['large', v, ft, tier]
    for v in ('v0.2', 'v0.3'):
        for ft in M.FILETYPES:
            yield ['some', v, ft]


SHAPES = [(1, 1, 1, 1, 1, 1), (3, 2, 2, 3, 2, 2), (2, 1, 3, 2, 1, 7), (20, 2, 1, 5, 3, 3), (1, 2, 4, 1, 1, 1)]


def expand(case):
    """yields (key, records)"""
    fam, v, ft = case[:3]
    if fam in ('pairs', 'triples'):
        i = case[3]
        if fam == 'pairs':
            for p in ppos(v, ft):
                yield '%s ppo=%s' % ((i,), p), M.make_records(v, ft, geos((i,)), ppo=p)
            rests = [(j,) for j in (QUICKGEO if case[-1] == 'quick' else range(len(ALLGEO)))]
        else:
            rests = list(itertools.product(range(len(ALLGEO)), repeat=2))
        for n, rest in enumerate(rests):
            idx = (i,) + rest
            if not relevant(v, ft, idx):
                continue
            ps = ppos(v, ft)
            for p in (ps if case[-1] == 'thorough' and ft != 'rawacf' else [ps[(i + n) % len(ps)]]):
                yield '%s ppo=%s' % (idx, p), M.make_records(v, ft, geos(idx), ppo=p)
    elif fam == 'shapes':
        for sh in SHAPES:
            for idx in ((13,), (4, 25, 0, 13)) if case[-1] == 'quick' else ((0, 13), (25, 4), (13,), (4, 25, 0, 13)):
                if M.gen(v) < 5:
                    idx = tuple(i - i % 3 + 1 for i in idx)
                for p in ppos(v, ft):
                    yield 'shape %s %s ppo=%s' % (sh, idx, p), M.make_records(v, ft, geos(idx), M.Shape(*sh), ppo=p)
    elif fam == 'large':
        # counts beyond one byte, and files with more than ten records
        for gs in ([(300, 1, 1), (1, 1, 1)], [(1, 1, 1), (1, 260, 1)], [(2, 1, 300), (1, 2, 0)], [(2, 1, 0), (1, 2, 257)],
                   [(260, 2, 1)], [(1 + i % 2, 1 + i % 3, i % 4) for i in range(13)]):
            if M.gen(v) < 5:
                gs = [(a, b, 1) for a, b, c in gs]
            for p in ppos(v, ft):
                yield 'large %s ppo=%s' % (gs[:2] + [len(gs)], p), M.make_records(
                    v, ft, [M.Geo(*g, IFACE[k % 4]) for k, g in enumerate(gs)], ppo=p)
    elif fam == 'long':
        # the largest record at every position of a longer file
        quick = case[-1] == 'quick'
        for n in (4,) if quick else (3, 4, 5, 6):
            for pos in range(n):
                for big in (10, 16, 25) if quick else (4, 10, 16, 22, 25, 26):
                    idx = [1] * n
                    idx[pos] = big - big % 3 + 1 if M.gen(v) < 5 else big
                    yield 'long %s' % idx, M.make_records(v, ft, geos(idx), ppo=ppos(v, ft)[pos % len(ppos(v, ft))])
        n = 12
        idx = [(7 * k) % 27 for k in range(n)]
        if M.gen(v) < 5:
            idx = [k - k % 3 + 1 for k in idx]
        yield 'twelve', M.make_records(v, ft, geos(idx), ppo=ppos(v, ft)[-1])
        # names of different length / order of the dictionary
        recs = M.make_records(v, ft, geos([1, 4, 10]), t0=999999990.5, dt=5.25)
        yield 'clock', recs
        recs = M.make_records(v, ft, geos([10, 4, 1]))
        yield 'reversed', type(recs)(reversed(list(recs.items())))
        for sfx in ('', '.0', '-rc1', '.1-61-gc13ab34'):
            yield 'suffix %r' % sfx, M.make_records(v, ft, geos([10, 1]), hash_suffix=sfx)
    elif fam == 'some':
        for idx in ((1,), (1, 13), (25, 4), (4, 22, 1, 10)):
            idx = tuple(i - i % 3 + 1 for i in idx)
            for p in ppos(v, ft):
                yield 'some %s ppo=%s' % (idx, p), M.make_records(v, ft, geos(idx), ppo=p)
