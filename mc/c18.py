"""C18: independent readers and writers can run in concurrent threads."""
import collections
import itertools
import os
import sys
import tempfile
import threading
import time
import numpy as np
import bmodel as M
import bfile as bf
import convmodel as cm
import dmapcodec as dc
import opspace as O
import sdmodel

PID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: stateless exploration of thread interleavings of the real code under a controlled scheduler '
             '(one runnable thread at a time, switch points at every executed source line of pydarnio, preemption bound 1 in '
             'quick and 2 in thorough)')
RULE = ('for every ordered pair of operations and every distinct source line the first executes (its first and last '
        'execution), the first is suspended there, the second runs to completion (bound 2: to one of its own lines, and so '
        'on), then the first is resumed; both results must be those of running alone; every schedule is non-trivial')
ASSUMPTIONS = ['switching inside one source line (between bytecodes or inside numpy / HDF5 calls) is not explored',
               'the two operations use different objects and write different files; where they read, the files are different ones or one and the same',
               'states = distinct suspension points, transitions = schedules executed']

TOOL = 3


# ------------------------------------------------------------------ alphabet
def build(d):
    """{name: [function of thread 0, function of thread 1]}"""
    import pydarnio as P
    ops = collections.OrderedDict()

    def add(name, make):
        ops[name] = [make(0), make(1)]

    def dm(i):
        return [dc.decode(dc.encode(sdmodel_recs(t, i)))[0] for t in ('snd', 'grid')[:1 + i]]

    def sdmodel_recs(t, i):
        return [sdmodel.make_record(t, None, k) for k in range(i, 2 * i + 1)]

    def dfile(i):
        p = os.path.join(d, 'd%d.dmap' % i)
        with open(p, 'wb') as f:
            f.write(dc.encode(dm(i)))
        return p

    def dict_of(t, i):
        return [sdmodel.to_dict(r) for r in sdmodel_recs(t, i)]

    def small(i):
        return [{'a': np.int16(3 + i), 'b': np.arange(6 + 2 * i, dtype=np.float32).reshape(2, -1), 'c': 'text%d' % i,
                 'd': np.arange(i + 1, dtype=np.int8), 'e': np.float64(i)}] * (1 + i)

    add('dmap read', lambda i: (lambda p: lambda out: [P.dmap2dict(P.DmapRead(p).read_records())])(dfile(i)))

    def dstream(i):
        raw = dc.encode(dm(1 - i))

        def f(out):
            r = P.DmapRead(raw, True)
            r.test_initial_data_integrity()
            return [P.dmap2dict(r.read_records())]
        return f
    add('dmap read stream', dstream)

    def dwrite(i):
        def f(out):
            p = os.path.join(out, 'w.dmap')
            w = P.DmapWrite(P.dict2dmap(small(i)), p)
            w.write_dmap()
            w.write_dmap()
            with open(p, 'rb') as g:
                return [g.read()]
        return f
    add('dmap write', dwrite)
    add('dmap write stream', lambda i: lambda out: [bytes(P.DmapWrite().write_dmap_stream(P.dict2dmap(small(i))))])
    add('dicts', lambda i: lambda out: [P.dmap2dict(P.dict2dmap(small(i)))])

    def sread(t, kind, stream):
        def mk(i):
            recs = [sdmodel.make_record(t, None, k, *([['stid'] if k == 1 else []] if kind == 'bad' else [])) for k in range(2 + i)]
            p = os.path.join(d, '%s-%s-%d.dmap' % (t, kind, i))
            with open(p, 'wb') as f:
                f.write(dc.encode(recs))
            return lambda out: [sdmodel.read(P.SDarnRead(open(p, 'rb').read(), True) if stream else P.SDarnRead(p), t)]
        return mk
    add('sdarn read snd', sread('snd', 'ok', False))
    add('sdarn read rawacf', sread('rawacf', 'ok', True))
    add('sdarn read bad grid', sread('grid', 'bad', False))

    def swrite(t):
        def mk(i):
            def f(out):
                p = os.path.join(out, 's.dmap')
                w = P.SDarnWrite(P.dict2dmap(dict_of(t, i)))
                sdmodel.write(w, t, p)
                with open(p, 'rb') as g:
                    return [g.read()]
            return f
        return mk
    add('sdarn write grid', swrite('grid'))
    add('sdarn write iqdat', swrite('iqdat'))

    def data(v, ft, st, i):
        if ft in ('rawacf', 'bfiq'):
            recs = cm.make(v, ft, 1 + i, (2, 1), (1, 2), M.Shape(nrange=1 + i))
        else:
            recs = M.make_records(v, ft, [M.Geo(2, 1, 1), M.Geo(1, 2, 1)][:1 + i])
        return recs if st == 'site' else M.to_array_data(v, ft, recs)

    def bfile_(v, ft, st, i):
        p = os.path.join(d, 'b-%s-%s-%s-%d.hdf5' % (v, ft, st, i))
        (bf.write_site if st == 'site' else bf.write_array)(p, data(v, ft, st, i))
        return p

    def bread(ft, st, vs, named=True):
        def mk(i):
            p = bfile_(vs[i], ft, st, i)

            def f(out):
                r = P.BorealisRead(p, ft, *([st] if named else []))
                return [r.software_version, r.records, r.arrays]
            return f
        return mk
    add('borealis read site', bread('bfiq', 'site', ('v0.6', 'v0.7')))
    add('borealis read array', bread('rawacf', 'array', ('v0.7', 'v0.4')))
    add('borealis detect', bread('antennas_iq', 'site', ('v0.5', 'v0.7'), False))

    def bwrite(ft, st, vs, bad=False):
        def mk(i):
            def f(out):
                p = os.path.join(out, 'b.hdf5')
                x = data(vs[i], ft, st, i)
                if bad:
                    for r in (x.values() if st == 'site' else [x]):
                        del r['pulses']
                w = P.BorealisWrite(p, x, ft, st)
                return [w.software_version, x, O.hdf(p)]
            return f
        return mk
    add('borealis write site', bwrite('antennas_iq', 'site', ('v0.4', 'v0.6')))
    add('borealis write array', bwrite('bfiq', 'array', ('v0.5', 'v0.7')))
    add('borealis write bad', bwrite('rawacf', 'site', ('v0.6', 'v0.5'), True))

    def brestr(ft, st, vs):
        def mk(i):
            p = bfile_(vs[i], ft, st, i)

            def f(out):
                q = os.path.join(out, 'r.hdf5')
                P.BorealisRestructure(p, q, ft, 'array' if st == 'site' else 'site')
                return [O.hdf(q)]
            return f
        return mk
    add('restructure site', brestr('rawacf', 'site', ('v0.5', 'v0.7')))
    add('restructure array', brestr('bfiq', 'array', ('v0.7', 'v0.6')))

    def bconv(ft, st, vs):
        def mk(i):
            p = bfile_(vs[i], ft, st, i)

            def f(out):
                q = os.path.join(out, 'c.dmap')
                P.BorealisConvert(p, ft, q, 1 + i, st)
                with open(q, 'rb') as g:
                    return [g.read()]
            return f
        return mk
    add('convert rawacf', bconv('rawacf', 'site', ('v0.4', 'v0.7')))
    add('convert bfiq', bconv('bfiq', 'array', ('v0.6', 'v0.5')))

    # both threads read one and the same file
    def shared(name, f):
        ops[name] = [f, f]
    dp = dfile(1)
    sp = os.path.join(d, 'same.grid')
    with open(sp, 'wb') as f:
        f.write(dc.encode([sdmodel.make_record('grid', None, k) for k in range(2)]))
    shared('same dmap: read', lambda out: [P.dmap2dict(P.DmapRead(dp).read_records())])
    shared('same grid: read', lambda out: [sdmodel.read(P.SDarnRead(sp), 'grid')])
    shared('same grid: read generic', lambda out: [P.dmap2dict(P.DmapRead(sp).read_records())])
    for st in ('site', 'array'):
        bp = bfile_('v0.6', 'rawacf', st, 0)

        def rd(out, p=bp, st=st):
            r = P.BorealisRead(p, 'rawacf', st)
            return [r.software_version, r.records, r.arrays]

        def detect(out, p=bp):
            r = P.BorealisRead(p, 'rawacf')
            return [r.borealis_file_structure, r.record_names, r.arrays]

        def restr(out, p=bp, st=st):
            q = os.path.join(out, 'r.hdf5')
            P.BorealisRestructure(p, q, 'rawacf', 'array' if st == 'site' else 'site')
            return [O.hdf(q)]

        def conv(out, p=bp, st=st):
            q = os.path.join(out, 'c.dmap')
            P.BorealisConvert(p, 'rawacf', q, 1, st)
            with open(q, 'rb') as g:
                return [g.read()]
        for n, f in (('read', rd), ('detect', detect), ('restructure', restr), ('convert', conv)):
            shared('same %s: %s' % (st, n), f)
    return ops


NAMES = ['dmap read', 'dmap read stream', 'dmap write', 'dmap write stream', 'dicts', 'sdarn read snd', 'sdarn read rawacf',
         'sdarn read bad grid', 'sdarn write grid', 'sdarn write iqdat', 'borealis read site', 'borealis read array',
         'borealis detect', 'borealis write site', 'borealis write array', 'borealis write bad', 'restructure site',
         'restructure array', 'convert rawacf', 'convert bfiq']
FAST = NAMES[:10]
SLOW = NAMES[10:]
# operations whose two threads read one file
SAME = ['same dmap: read', 'same grid: read', 'same grid: read generic'] + [
    'same %s: %s' % (st, n) for st in ('site', 'array') for n in ('read', 'detect', 'restructure', 'convert')]


def file_of(name):
    return name.split(':')[0]


def cases(tier):
    for i, a in enumerate(NAMES):
        for j, b in enumerate(NAMES):
            # quick: every fast pair, and for the others the same operation and a few partners
            if tier == 'quick' and not (a in FAST and b in FAST) and \
                    (j - i) % 20 not in ((0, 3, 10, 16) if a in FAST else (0, 10)):
                continue
            n = 4 if a in SLOW else 1
            for part in range(n):
                yield ['one', a, b, tier, part, n]
    for a in SAME:
        for b in SAME:
            if file_of(a) == file_of(b):
                n = 1 if SAME.index(a) < 3 else 4
                # quick, Borealis: each operation with itself, and each one suspended while the structure is detected
                if tier == 'quick' and n > 1 and a != b and not b.endswith('detect'):
                    continue
                for part in range(n):
                    yield ['one', a, b, tier, part, n]
    if tier == 'thorough':
        for a in FAST:
            for b in FAST:
                yield ['two', a, b]
    else:
        for a, b in (('dmap read', 'dmap read'), ('dmap write', 'dmap write'), ('dicts', 'dicts'), ('dmap read stream', 'dmap write stream')):
            yield ['two', a, b]


# ------------------------------------------------------------------ scheduler
_OPS = None
_D = None


def worker_init(scratch):
    global _OPS, _D
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='thr-')
    _OPS = build(_D)
    assert list(_OPS) == NAMES + SAME
    for i in (0, 1):
        os.makedirs(os.path.join(_D, 'out%d' % i))
    sys.monitoring.use_tool_id(TOOL, 'mc')


def out(i):
    return os.path.join(_D, 'out%d' % i)


def run_op(name, i):
    return O.attempt(_OPS[name][i], out(i))


def root():
    import pydarnio
    return os.path.dirname(os.path.realpath(pydarnio.__file__)) + os.sep


def lines_of(name, i):
    """[(code, line, count)] executed inside pydarnio by the operation alone."""
    r = root()
    mon = sys.monitoring
    seen = collections.OrderedDict()
    inside = {}

    def cb(code, line):
        ok = inside.get(code)
        if ok is None:
            ok = inside[code] = os.path.realpath(code.co_filename).startswith(r)
        if not ok:
            return mon.DISABLE
        k = (code, line)
        seen[k] = seen.get(k, 0) + 1
    mon.restart_events()
    mon.register_callback(TOOL, mon.events.LINE, cb)
    mon.set_events(TOOL, mon.events.LINE)
    try:
        run_op(name, i)
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
    return [(c, ln, n) for (c, ln), n in seen.items()]


class Schedule:
    """Thread 0 runs `a` up to its stop, then thread 1 runs `b` (up to its stop,
    if any), then thread 0 to the end, then thread 1."""

    def __init__(self, a, b, stop_a, stop_b=None):
        self.ops = (a, b)
        self.stops = (stop_a, stop_b)
        self.sem = (threading.Semaphore(0), threading.Semaphore(0))
        self.hits = [0, 0]
        self.done = [False, False]
        self.res = [None, None]
        self.ids = [None, None]
        self.blocked = False

    def cb(self, code, line):
        me = threading.get_ident()
        other = True
        for i in (0, 1):
            st = self.stops[i]
            if st is None or code is not st[0] or line != st[1]:
                continue
            other = False
            if me == self.ids[i]:
                self.hits[i] += 1
                if self.hits[i] == st[2]:
                    self.switch(i)
        if other:
            return sys.monitoring.DISABLE

    def switch(self, i):
        """called in thread i: let the other one run"""
        j = 1 - i
        self.sem[j].release()
        if self.done[j]:
            return
        # the other thread waits for something this one holds (the lock of
        # h5py, in a loop over attributes) if it uses no processor time
        last, still = None, 0
        while not self.sem[i].acquire(timeout=0.05):
            try:
                now = time.clock_gettime(self.clocks[j])
            except OSError:     # it has ended
                now = None
            still = still + 1 if now == last else 0
            last = now
            if still == 8:
                self.blocked = True
                return

    def body(self, i):
        self.sem[i].acquire()
        try:
            self.res[i] = run_op(self.ops[i], i)
        except BaseException as e:
            self.res[i] = ('escaped', None, repr(e))
        self.done[i] = True
        self.sem[1 - i].release()

    def run(self):
        mon = sys.monitoring
        mon.restart_events()
        mon.register_callback(TOOL, mon.events.LINE, self.cb)
        codes = {s[0] for s in self.stops if s is not None}
        for c in codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        try:
            for t in ts:
                t.start()
            self.ids = [t.ident for t in ts]
            self.clocks = [time.pthread_getcpuclockid(i) for i in self.ids]
            self.sem[0].release()
            for t in ts:
                t.join(60)
        finally:
            for c in codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
        return not any(t.is_alive() for t in ts)


def points(name, i, both):
    for c, ln, n in lines_of(name, i):
        yield (c, ln, 1)
        if both and n > 1:
            yield (c, ln, n)
        if both and n > 2:
            yield (c, ln, 2)


def where(p):
    return '%s:%d#%d' % (os.path.basename(p[0].co_filename), p[1], p[2])


def run(case, ctx):
    fam, a, b = case[:3]
    base = [run_op(a, 0)[::2], run_op(b, 1)[::2]]
    again = [run_op(a, 0)[::2], run_op(b, 1)[::2]]
    ctx.expect(base == again, 'repeat %s %s' % (a, b), '%s / %s: running it twice gives other results' % (a, b))

    def go(pa, pb):
        s = Schedule(a, b, pa, pb)
        key = '%s @ %s / %s%s' % (a, where(pa), b, ' @ ' + where(pb) if pb else '')
        ctx.ev((a, b, where(pa), where(pb) if pb else None))
        ctx.transition(key)
        ctx.state((a, where(pa)))
        ctx.traces += 1
        ctx.sample(key)
        if not s.run():
            ctx.bad(key, '%s: a thread does not end' % key)
            raise RuntimeError('threads left behind')
        if s.blocked:
            ctx.count('schedules_in_which_a_lock_was_waited_for')
        for i, n in ((0, a), (1, b)):
            if s.res[i][::2] != base[i]:
                ctx.bad(key, '%s: thread %d (%s) gives %r, alone %r%s'
                        % (key, i, n, s.res[i][2], base[i][1], '' if s.res[i][2] != base[i][1] else ' (other data)'))
    if fam == 'one':
        both = case[3] == 'thorough' or (a in FAST and b in FAST)
        ps = list(points(a, 0, both))[case[4]::case[5]]
        for pa in ps:
            go(pa, None)
        ctx.count('preemption_points', len(ps))
    else:
        pas, pbs = list(points(a, 0, False)), list(points(b, 1, False))
        for pa, pb in itertools.product(pas, pbs):
            go(pa, pb)
