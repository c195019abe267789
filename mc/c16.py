"""C16: conversions that cannot be faithful are refused without side effects."""
import itertools
import os
import numpy as np
import bmodel as M
import bfile as bf
import convmodel as cm

PID = 'C16'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive enumeration of refusal causes x record positions x versions x file types x '
             'structures x destination states on the real converter, with the bytes of source, destination and '
             'directories compared before and after, judged by an independent convertibility model')
RULE = ('every cause is put into every record position of files of one to three records; the error class must be the '
        'documented one and nothing on disk may change; the matching convertible files must convert; non-trivial when the '
        'file is one refusal cause away from being convertible')
ASSUMPTIONS = ['when several causes meet, the error of any of them is right',
               'hard links to the source are not treated as the source path']

OLD = [None, b'previous contents', b'x' * 200000]


def cases(tier):
    for v in M.VERSIONS:
        for ft in ('rawacf', 'bfiq'):
            for st in ('site', 'array'):
                for fam in ('blanked', 'phase', 'station', 'path', 'slice', 'broken', 'fine'):
                    if fam == 'phase' and ft != 'bfiq':
                        continue
                    yield [fam, v, ft, st, tier]
        for ft in ('antennas_iq', 'rawrf'):
            for st in ('site', 'array'):
                if st == 'array' and ft == 'rawrf':
                    continue
                yield ['type', v, ft, st, tier]


class Env:
    def __init__(self, ctx, v, ft, st):
        self.ctx, self.v, self.ft, self.st = ctx, v, ft, st
        self.dir, self.wd = ctx.path('d'), ctx.path('wd')
        for d in (self.dir, self.wd):
            os.makedirs(d, exist_ok=True)
        os.chdir(self.wd)
        self.src, self.dst = os.path.join(self.dir, 'in.hdf5'), os.path.join(self.dir, 'out.dmap')

    def put(self, recs, array=None):
        if self.st == 'site':
            bf.write_site(self.src, recs)
        else:
            bf.write_array(self.src, array if array is not None else M.to_array_data(self.v, self.ft, recs))
        self.h = bf.digest(self.src)

    def go(self, key, want, ft=None, given='auto', dst=None, args=('named', 'detected'), olds=OLD[:2], src=None, recs=None):
        """want: None (must convert) or tuple of error class names."""
        import pydarnio as P
        from pydarnio import borealis_exceptions as be
        for arg, old in itertools.product(args, olds):
            k = '%s:%s:%s %s arg=%s dest=%s' % (self.v, self.ft, self.st, key, arg, 'absent' if old is None else len(old))
            self.ctx.ev((k,) if want else None)
            self.ctx.sample(k)
            if dst is None:
                if old is None:
                    if os.path.exists(self.dst):
                        os.unlink(self.dst)
                else:
                    open(self.dst, 'wb').write(old)
            listing = {d: sorted(os.listdir(d)) for d in (self.dir, self.wd)}
            kw = {}
            if arg == 'named':
                kw['borealis_file_structure'] = self.st
            if given != 'auto':
                if given is not None:
                    kw['borealis_slice_id'] = given
            elif M.gen(self.v) < 5:
                kw['borealis_slice_id'] = 3
            err = None
            try:
                P.BorealisConvert(src or self.src, self.ft if ft is None else ft, dst or self.dst, **kw)
            except Exception as e:
                err = e
            if bf.digest(self.src) != self.h:
                self.ctx.bad(k, '%s: the source was changed (%r)' % (k, err))
            now = {d: sorted(os.listdir(d)) for d in (self.dir, self.wd)}
            if want is None:
                if err is not None:
                    self.ctx.bad(k, '%s: refused: %s: %s' % (k, type(err).__name__, str(err)[-300:]))
                    continue
                with open(self.dst, 'rb') as f:
                    raw = f.read()
                x = cm.check_file(self.v, self.ft, recs, 3 if M.gen(self.v) >= 5 or given in ('auto', None) else int(given), 1, self.src, raw)
                if x:
                    self.ctx.bad(k, '%s: output: %s' % (k, x))
                if now[self.wd] or now[self.dir] != sorted(set(listing[self.dir]) | {'out.dmap'}):
                    self.ctx.bad(k, '%s: created %r' % (k, now))
                continue
            if err is None:
                self.ctx.bad(k, '%s: accepted' % k)
            elif type(err).__name__ not in want and 'any' not in want:
                self.ctx.bad(k, '%s: raised %s: %s' % (k, type(err).__name__, str(err)[-300:]))
            elif 'any' in want and not isinstance(err, tuple(c for c in vars(be).values() if isinstance(c, type))):
                self.ctx.bad(k, '%s: raised %s: %s' % (k, type(err).__name__, str(err)[-300:]))
            if now != listing:
                self.ctx.bad(k, '%s: files before %r, after %r' % (k, listing, now))
            elif old is not None and dst is None and open(self.dst, 'rb').read() != old:
                self.ctx.bad(k, '%s: the existing output was changed' % k)


def positions(tier, n=(1, 2, 3)):
    for k in n:
        for pos in range(k):
            yield k, pos


def run(case, ctx):
    fam, v, ft, st, tier = case
    e = Env(ctx, v, ft, st)
    g = M.gen(v)
    at, ds = M.site_fields(v, ft)
    cerr = ('BorealisConvert2RawacfError' if ft == 'rawacf' else 'BorealisConvert2IqdatError',)
    varies = st == 'site' or g >= 5          # blanked samples may differ from record to record
    if fam == 'type':
        recs = M.make_records(v, ft, [M.Geo(2, 1, 1), M.Geo(1, 2, 1)])
        e.put(recs)
        for given in (None, 3):
            want = ('BorealisConversionTypesError',) + (('BorealisStructureError',) if g < 5 or ft == 'rawrf' else ())
            e.go('type, slice %r' % given, want if given is None else want[:1], given=given)
        for other in ('fitacf', 'iqdat', '', None, 'RAWACF'):
            e.go('type %r' % (other,), ('BorealisFileTypeError',), ft=other if other is not None else 0)
    elif fam == 'slice':
        recs = cm.make(v, ft, 2)
        e.put(recs)
        if g < 5:
            e.go('no slice', ('BorealisStructureError',), given=None)
        else:
            e.go('no slice given', None, given=None, recs=recs)
        for given in (0, 1, 2, 7, 255, '0', '5', np.uint32(0), np.int64(0), np.uint8(9)):
            e.go('slice %r' % given, None, given=given, recs=recs)
        for given in ('x', '', '3.5'):
            if g < 5:
                for arg in ('named', 'detected'):
                    before = sorted(os.listdir(e.dir))
                    import pydarnio as P
                    kw = {'borealis_file_structure': st} if arg == 'named' else {}
                    ctx.ev((v, ft, st, 'slice', given, arg))
                    try:
                        P.BorealisConvert(e.src, ft, e.dst, given, **kw)
                        ctx.bad('slice %r' % given, '%s %s %s: slice id %r accepted' % (v, ft, st, given))
                    except Exception:
                        pass
                    if bf.digest(e.src) != e.h or sorted(os.listdir(e.dir)) != before:
                        ctx.bad('slice %r' % given, '%s %s %s: slice id %r: files changed' % (v, ft, st, given))
    elif fam == 'blanked':
        sp = 8
        for npu in (1, 2, 3, 7):
            for dbl in ((False, True) if g >= 6 else (False,)):
                shp = M.Shape(npulse=npu)
                base = list(cm.make(v, ft, 1, shp=shp, double=(dbl,)).values())[0]['blanked_samples'].astype(int).tolist()
                variants = []
                for i in range(len(base)):
                    variants.append(('without %d' % i, base[:i] + base[i + 1:]))
                    for d in (-1, 1, sp):
                        x = base[:i] + [base[i] + d] + base[i + 1:]
                        variants.append(('%d%+d' % (i, d), x))
                variants += [('none', []), ('one more', base + [base[-1] + 2]), ('one before', [500] + base),
                             ('twice', base + base), ('zero', [0] * len(base)), ('reversed', base[::-1]),
                             ('next only', [x + 1 for x in cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, False)]),
                             ('unsorted pairs', cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, False) +
                              [x + 1 for x in cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, False)]),
                             ('pulses', [0, 9, 12, 20, 22, 26, 27][:npu]),
                             ('pairs', cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, True)),
                             ('single', cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, False))]
                for (name, b), (n, pos) in itertools.product(variants, positions(tier)):
                    if st == 'array' and g < 5 and n > 1:
                        continue
                    if any(x < 0 for x in b):
                        continue
                    if tier == 'quick' and (n == 3 and npu != 2 or npu == 7 and (n, pos) != (2, 1) and name[0].isdigit()):
                        continue
                    plain = cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, False)
                    pairs = cm.blanked(v, [0, 9, 12, 20, 22, 26, 27][:npu], sp, True)
                    good = b == plain or (g >= 6 and b == pairs)
                    recs = cm.make(v, ft, n, (1, 2), (1, 2), shp, double=(dbl,),
                                   per={pos: {'blanked_samples': np.array(b, ds['blanked_samples'])}})
                    e.put(recs)
                    first = (n, pos) in ((1, 0), (2, 1))
                    e.go('blanked %s npulse=%d double=%s record %d of %d' % (name, npu, dbl, pos, n), None if good else cerr,
                         recs=recs, args=('named', 'detected') if first else ('named',), olds=OLD[:2] if first else OLD[1:2])
    elif fam == 'phase':
        for npu in (1, 2, 3):
            shp = M.Shape(npulse=npu)
            for val in (0.5, -90.0, 1e-30, float('nan'), -0.0, 0.0):
                good = val == 0
                for n, pos in positions(tier):
                    if g < 6 and st == 'array' and n > 1:
                        continue
                    rank2 = [False, True] if g >= 6 else [False]
                    for two in rank2:
                        for cell in range(npu * (2 if two else 1)):
                            x = np.zeros((2, npu) if two else (npu,), dtype=ds['pulse_phase_offset'])
                            x.flat[cell] = val
                            # ranks are the same in all records
                            zero = np.zeros_like(x)
                            per = {i: {'pulse_phase_offset': x if i == pos else zero} for i in range(n)}
                            recs = cm.make(v, ft, n, (1, 2), (2,), shp, per=per)
                            e.put(recs)
                            e.go('phase %r cell %d two=%s npulse=%d record %d of %d' % (val, cell, two, npu, pos, n),
                                 None if good else cerr, recs=recs, args=('named',),
                                 olds=OLD[:2] if n == 1 else OLD[1:2])
        # every combination of a few offsets (some cancel out), and one bad record late in a long file
        for two in ([False, True] if g >= 6 else [False]):
            for vals in itertools.product((0.0, 90.0, -90.0), repeat=4 if two else 3):
                x = np.array(vals, dtype=ds['pulse_phase_offset'])
                x = x.reshape(2, 2) if two else x
                recs = cm.make(v, ft, 1, (2,), (2,), M.Shape(npulse=2 if two else 3), per={0: {'pulse_phase_offset': x}})
                e.put(recs)
                e.go('phases %s two=%s' % (vals, two), cerr if any(vals) else None, recs=recs, args=('named',), olds=OLD[1:2])
            if g >= 6 or st == 'site':
                for pos in (0, 6, 12):
                    x = np.zeros((2, 2) if two else 2, dtype=ds['pulse_phase_offset'])
                    per = {i: {'pulse_phase_offset': x.copy()} for i in range(13)}
                    per[pos]['pulse_phase_offset'].flat[1] = 45
                    recs = cm.make(v, ft, 13, (1, 2), (2,), M.Shape(npulse=2), per=per)
                    e.put(recs)
                    e.go('phase two=%s record %d of 13' % (two, pos), cerr, recs=recs, args=('named',), olds=OLD[1:2])
    elif fam == 'station':
        for name in ('', 'SAS', 'xyz', 'sas ', ' sas', 'sa', 'sass', '5', 'Saskatoon', 'None'):
            for n, pos in positions(tier):
                if st == 'array' and n > 1:
                    continue
                recs = cm.make(v, ft, n, (1, 2), per={pos: {'station': name}})
                e.put(recs)
                e.go('station %r record %d of %d' % (name, pos, n), cerr)
    elif fam == 'path':
        recs = cm.make(v, ft, 2)
        e.put(recs)
        link = os.path.join(e.dir, 'link')
        os.symlink('in.hdf5', link)
        dlink = os.path.join(e.wd, '..', 'dlink')
        if not os.path.islink(dlink):
            os.symlink(e.dir, dlink)
        rel = os.path.relpath(e.src, e.wd)
        spell = [e.src, rel, os.path.join(e.dir, '.', 'in.hdf5'), e.dir + '//in.hdf5',
                 os.path.join(e.dir, '..', os.path.basename(e.dir), 'in.hdf5'), link, os.path.join(dlink, 'in.hdf5')]
        for a, b in itertools.product(range(len(spell)), repeat=2):
            e.go('paths %d %d' % (a, b), ('ConvertFileOverWriteError',), src=spell[a], dst=spell[b], olds=[None],
                 args=('named', 'detected') if a == 0 else ('named',))
        os.unlink(dlink)
        os.unlink(link)
        import pydarnio as P
        for dst in (os.path.join(e.dir, 'no', 'such', 'out'), e.dir, ''):
            ctx.ev((v, ft, st, 'nowhere', dst == e.dir, dst == ''))
            before = sorted(os.listdir(e.dir))
            kw = {'borealis_slice_id': 3} if g < 5 else {}
            try:
                P.BorealisConvert(e.src, ft, dst, **kw)
                ctx.bad('nowhere', '%s %s %s: output to %r accepted' % (v, ft, st, dst))
            except Exception:
                pass
            if bf.digest(e.src) != e.h or sorted(os.listdir(e.dir)) != before or os.listdir(e.wd):
                ctx.bad('nowhere', '%s %s %s: output to %r: files changed' % (v, ft, st, dst))
    elif fam == 'broken':
        # data that do not satisfy their format, in every record
        for n, pos in positions(tier):
            for f in sorted(set(at) | set(ds)):
                recs = cm.make(v, ft, n)
                arr = M.to_array_data(v, ft, recs) if st == 'array' else None
                d = arr if st == 'array' else list(recs.values())[pos]
                if st == 'array' and (f not in d or pos):
                    continue
                del d[f]
                e.put(recs, arr)
                e.go('without %s record %d of %d' % (f, pos, n), ('any',), args=('named',), olds=OLD[1:2] if n > 1 else OLD[:2])
        # correlations / samples that do not fill their dimensions
        if st == 'site':
            for n, pos in positions(tier):
                for d in (1, -1):
                    recs = cm.make(v, ft, n, (1, 2))
                    r = list(recs.values())[pos]
                    name = M.descr_names(v, ft)[1]
                    x = r[name].copy()
                    x[-1] += d
                    r[name] = x
                    e.put(recs)
                    e.go('dimensions %+d record %d of %d' % (d, pos, n), cerr, args=('named',))
    elif fam == 'fine':
        for n in (1, 2, 3):
            for b in ((1,), (2, 1)):
                for dbl in ((False,), (True,), (True, False)):
                    if not varies and len(dbl) > 1:
                        continue
                    recs = cm.make(v, ft, n, b, (2, 1), double=dbl)
                    e.put(recs)
                    e.go('fine n=%d beams=%s double=%s' % (n, b, dbl), None, recs=recs, olds=OLD)
