"""C21: an interrupted or failed operation harms nothing and can be repeated."""
import ast
import collections
import dis
import functools
import gc
import os
import sys
import tempfile
import numpy as np
import bfile as bf
import dmapcodec as dc
import opspace as O
import sdmodel
from snap import snap

PID = 'C21'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive fault-point enumeration - every operation of the alphabet is interrupted by an exception '
             'at every source line of pydarnio it executes (first and last execution; every execution up to a bound in '
             'thorough), on the real code, and the state of inputs, caller data and reused objects is checked afterwards')
RULE = ('after each interruption the exception must arrive (or the result be right), input files and caller data must be as '
        'before, no file of the operation may stay open, and repeating the call - on the same reader or writer object, and '
        'on a new one - must give the result of an uninterrupted run; every fault point is non-trivial')
ASSUMPTIONS = ['faults are KeyboardInterrupt and MemoryError raised between source lines, not inside C code',
               'partial output of the interrupted operation itself is not judged (a new destination is used to repeat it)',
               'states = fault points, transitions = (fault point, exception, follow-up)']
TOOL = 4


# ------------------------------------------------------------------ alphabet
class Op:
    """inputs: paths; given: caller data; first(): interrupted call, returns
    comparable result; again(): the same on the objects already built (None
    when there is nothing to reuse)."""

    def __init__(self, make):
        self.make = make


def alphabet():
    import pydarnio as P
    ops = collections.OrderedDict()

    def dmap_recs(i):
        return [sdmodel.make_record(t, None, k) for k, t in enumerate(('snd', 'grid', 'rawacf')[:i + 1])]

    def file_of(d, name, raw):
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(raw)
        return p

    def plain(recs):
        return [collections.OrderedDict(r) for r in P.dmap2dict(recs)]

    def dmap_reader(stream, call):
        def make(d):
            raw = dc.encode(dmap_recs(1))
            p = file_of(d, 'in.dmap', raw)
            buf = bytearray(raw)
            r = P.DmapRead(buf, True) if stream else P.DmapRead(p)

            def read():
                if call == 'check':
                    r.test_initial_data_integrity()
                x = r.read_records()
                return [list(x), plain(r.get_dmap_records)]

            def reread():
                x = r.read_records()
                return [list(x), plain(r.get_dmap_records)]
            return [p], [buf], read, reread, lambda: [list(P.DmapRead(p).read_records())] * 2
        return make
    ops['dmap read'] = dmap_reader(False, 'read')
    ops['dmap read stream'] = dmap_reader(True, 'read')
    ops['dmap check and read'] = dmap_reader(True, 'check')

    def fresh_dmap(d):
        p = file_of(d, 'in.dmap', dc.encode(dmap_recs(2)))
        f = lambda: list(P.DmapRead(p).read_records())
        return [p], [], f, None, f
    ops['dmap open and read'] = fresh_dmap

    def small():
        return [{'a': np.int16(3 + i), 'b': np.arange(6, dtype=np.float32).reshape(2, -1).T, 'c': 'text%d' % i,
                 'd': np.arange(i + 1, dtype=np.int8), 'e': np.float64(i)} for i in range(2)]

    def dmap_writer(how):
        def make(d):
            recs = small() if how == 'dicts' else P.dict2dmap(small())
            p, q = os.path.join(d, 'w.dmap'), os.path.join(d, 'w2.dmap')
            w = P.DmapWrite(recs, p) if how != 'late' else P.DmapWrite()

            def put(path, w=w):
                if how == 'stream':
                    return [bytes(w.write_dmap_stream())]
                if how == 'late':
                    return [bytes(w.write_dmap_stream(recs))]
                w.write_dmap(path)
                with open(path, 'rb') as f:
                    return [f.read()]

            def new():
                return put(q, P.DmapWrite(recs, q) if how != 'late' else P.DmapWrite())
            return [], [recs], lambda: put(p), lambda: put(p), new
        return make
    for how in ('dicts', 'records', 'stream', 'late'):
        ops['dmap write ' + how] = dmap_writer(how)

    def dicts(d):
        recs = small()
        f = lambda: [P.dmap2dict(P.dict2dmap(recs))]
        return [], [recs], f, f, f
    ops['dicts'] = dicts

    def sd_reader(t, stream):
        def make(d):
            raw = dc.encode([sdmodel.make_record(t, None, k) for k in range(2)])
            p = file_of(d, 'in.dmap', raw)
            buf = bytearray(raw)
            r = P.SDarnRead(buf, True) if stream else P.SDarnRead(p)

            def read(r=r):
                x = sdmodel.read(r, t)
                return [x, plain(r.get_dmap_records), r.get_records]
            return [p], [buf], read, read, lambda: read(P.SDarnRead(p))
        return make

    def sd_writer(t):
        def make(d):
            recs = P.dict2dmap([sdmodel.to_dict(sdmodel.make_record(t, None, k)) for k in range(2)])
            p, q = os.path.join(d, 's.dmap'), os.path.join(d, 's2.dmap')
            w = P.SDarnWrite(recs)

            def put(path, w=w):
                sdmodel.write(w, t, path)
                with open(path, 'rb') as f:
                    return [f.read()]
            return [], [recs], lambda: put(p), lambda: put(p), lambda: put(q, P.SDarnWrite(recs))
        return make
    for i, t in enumerate(sorted(sdmodel.TYPES)):
        ops['sdarn read ' + t] = sd_reader(t, i % 2 == 1)
        ops['sdarn write ' + t] = sd_writer(t)

    def put_b(d, v, ft, st):
        p = os.path.join(d, 'in.hdf5')
        if (v, ft, st) not in made:
            (bf.write_site if st == 'site' else bf.write_array)(p, O.bdata(v, ft, st))
            with open(p, 'rb') as f:
                made[v, ft, st] = f.read()
        return file_of(d, 'in.hdf5', made[v, ft, st])
    made = {}

    def b_read(v, ft, st, named):
        def make(d):
            p = put_b(d, v, ft, st)

            def read():
                r = P.BorealisRead(p, ft, *([st] if named else []))
                return [r.borealis_file_structure, r.software_version, r.records] + ([r.arrays] if ft != 'rawrf' else [])
            return [p], [], read, None, read
        return make

    def b_view(v, ft, st):
        def make(d):
            p = put_b(d, v, ft, st)
            r = P.BorealisRead(p, ft, st)

            def view(r=r):
                return [list(r.record_names), r.records, r.arrays]
            return [p], [], view, view, lambda: view(P.BorealisRead(p, ft, st))
        return make

    def b_write(v, ft, st, named):
        def make(d):
            x = O.bdata(v, ft, st)
            n = [0]

            def put():
                n[0] += 1
                p = os.path.join(d, 'w%d.hdf5' % n[0])
                w = P.BorealisWrite(p, x, ft, *([st] if named else []))
                return [w.borealis_file_structure, O.hdf(p), w.records] + ([w.arrays] if ft != 'rawrf' else [])
            return [], [x], put, None, put
        return make

    def b_restr(v, ft, st):
        def make(d):
            p = put_b(d, v, ft, st)
            n = [0]

            def go():
                n[0] += 1
                q = os.path.join(d, 'r%d.hdf5' % n[0])
                P.BorealisRestructure(p, q, ft, 'array' if st == 'site' else 'site')
                return [O.hdf(q)]
            return [p], [], go, None, go
        return make

    def b_conv(v, ft, st, named):
        def make(d):
            p = put_b(d, v, ft, st)
            q = os.path.join(d, 'c.dmap')

            def go():
                kw = {'borealis_file_structure': st} if named else {}
                c = P.BorealisConvert(p, ft, q, 2, **kw)
                with open(q, 'rb') as f:
                    return [f.read(), list(c.sdarn_dict)]
            return [p], [], go, None, go
        return make
    for i, (v, ft, st) in enumerate(O.borealis_kinds()):
        k = '%s %s %s' % (v, ft, st)
        ops['borealis read ' + k] = b_read(v, ft, st, i % 2 == 0)
        if ft != 'rawrf':
            ops['borealis view ' + k] = b_view(v, ft, st)
            ops['restructure ' + k] = b_restr(v, ft, st)
        ops['borealis write ' + k] = b_write(v, ft, st, i % 2 == 1)
        if ft in ('rawacf', 'bfiq'):
            ops['convert ' + k] = b_conv(v, ft, st, i % 2 == 0)
    return ops


def wanted(tier):
    out = []
    for n in alphabet():
        w = n.split()
        if tier == 'quick' and w[-1] in ('site', 'array'):
            # a spread of versions that still has every operation, type and structure
            v, ft, st = w[-3:]
            i = ('rawacf', 'bfiq', 'antennas_iq', 'rawrf').index(ft) + (st == 'array') + sum(map(ord, w[0] + w[1]))
            if v != 'v0.%d' % (2 + i % 6):
                continue
        out.append(n)
    return out


def cases(tier):
    for n in wanted(tier):
        parts = 1 if n.split()[-1] not in ('site', 'array') else 2 if tier == 'quick' else 6
        for part in range(parts):
            yield ['line', n, part, parts, tier]
    for n in O.alphabet('/nonexistent'):
        if 'bad' in n or 'cut' in n or 'as other' in n or n in ('dnone', 'dbad', 'sempty', 'convert no slice', 'read unknown type'):
            yield ['open', n]


_D = None
_OPS = None
_ALL = None


def worker_init(scratch):
    global _D, _OPS, _ALL
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='int-')
    os.makedirs(os.path.join(_D, 'out'))
    os.makedirs(os.path.join(_D, 'src'))
    O.prepare(os.path.join(_D, 'src'))
    _ALL = O.alphabet(os.path.join(_D, 'src'))
    _OPS = alphabet()
    sys.monitoring.use_tool_id(TOOL, 'mc-fault')


def clean():
    d = os.path.join(_D, 'out')
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    return d


def left_open():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if p.startswith(os.path.join(_D, 'out')):
            out.append(os.path.basename(p))
    return sorted(out)


# ------------------------------------------------------------------ fault injection
def root():
    import pydarnio
    return os.path.dirname(os.path.realpath(pydarnio.__file__)) + os.sep


def lines_of(f):
    r = root()
    mon = sys.monitoring
    seen = collections.OrderedDict()
    inside = {}

    def cb(code, line):
        ok = inside.get(code)
        if ok is None:
            ok = inside[code] = os.path.realpath(code.co_filename).startswith(r)
        if not ok:
            return mon.DISABLE
        seen[code, line] = seen.get((code, line), 0) + 1
    mon.restart_events()
    mon.register_callback(TOOL, mon.events.LINE, cb)
    mon.set_events(TOOL, mon.events.LINE)
    try:
        f()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
    return [(c, ln, n) for (c, ln), n in seen.items() if ln not in quiet_lines(c)]


@functools.lru_cache(None)
def quiet_lines(code):
    """Lines that begin with an instruction that does nothing ('try:'): no
    exception can arise there, and CPython has no handlers in force for it."""
    first = {}
    for ins in dis.get_instructions(code):
        ln = ins.positions.lineno
        if ln is not None and ins.opname not in ('RESUME', 'CACHE'):
            first.setdefault(ln, set()).add(ins.opname)
    starts = {ln: off for off, _, ln in reversed(list(code.co_lines())) if ln is not None}
    ops = {ins.offset: ins.opname for ins in dis.get_instructions(code)}
    return {ln for ln, names in first.items() if names == {'NOP'} or ops.get(starts.get(ln)) == 'NOP'}


@functools.lru_cache(None)
def with_lines(filename):
    with open(filename) as f:
        tree = ast.parse(f.read())
    return {x.lineno for n in ast.walk(tree) if isinstance(n, (ast.With, ast.AsyncWith))
            for x in [n] + [it.context_expr for it in n.items]}


@functools.lru_cache(None)
def final_lines(filename):
    """Lines that clean up, or only hand over an open file (`return f` in a
    helper): an exception there can leave things undone."""
    with open(filename) as f:
        tree = ast.parse(f.read())
    hand = {n.lineno for n in ast.walk(tree) if isinstance(n, (ast.Return, ast.Yield)) and isinstance(n.value, ast.Name)}
    return hand | {ln for n in ast.walk(tree) for part in (getattr(n, 'finalbody', []), [n] if isinstance(n, ast.Expr) and isinstance(
        n.value, ast.Call) and getattr(n.value.func, 'attr', '') == 'close' else []) for x in part
        for ln in range(x.lineno, x.end_lineno + 1)}


def interrupt(f, code, line, nth, exc):
    """Run f with exc raised at the nth execution of the line; (hit, result, error)"""
    mon = sys.monitoring
    hits = [0]

    def cb(c, ln):
        if c is code and ln == line:
            hits[0] += 1
            if hits[0] == nth:
                raise exc('injected')
        elif c is code:
            return mon.DISABLE
    mon.restart_events()
    mon.register_callback(TOOL, mon.events.LINE, cb)
    mon.set_local_events(TOOL, code, mon.events.LINE)
    res = err = None
    try:
        res = f()
    except (Exception, KeyboardInterrupt) as e:
        err = e
    finally:
        mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
    return hits[0] >= nth, res, err


def nths(n, tier):
    if tier == 'quick':
        return sorted({1, n})
    return sorted({1, 2, 3, n // 2, n - 1, n} & set(range(1, n + 1)))


def run(case, ctx):
    if case[0] == 'open':
        return opened(case, ctx)
    name, part, parts, tier = case[1:]
    make = _OPS[name]
    inputs, given, first, again, new = make(clean())
    base = O.digest(first())
    base_new = O.digest(new())
    inputs, given, first, again, new = make(clean())
    pts = lines_of(first)
    for i, (code, line, n) in enumerate(pts):
        if i % parts != part:
            continue
        if line in with_lines(code.co_filename):
            n = 1   # executed again on the way out, where CPython has no handler in force yet
        for nth in nths(n if tier != 'quick' or parts == 1 or i % 4 < 2 else 1, tier):
            for exc in (KeyboardInterrupt, MemoryError):
                if tier == 'quick' and exc is MemoryError and (nth != 1 or i % 6):
                    continue
                inputs, given, first, again, new = make(clean())
                before = [snap(x) for x in given] + [bf.digest(p) for p in inputs]
                where = '%s:%d#%d' % (os.path.basename(code.co_filename), line, nth)
                key = '%s interrupted by %s at %s' % (name, exc.__name__, where)
                hit, res, err = interrupt(first, code, line, nth, exc)
                if not hit:
                    ctx.count('fault_points_not_reached_again')
                    continue
                ctx.ev((name, where, exc.__name__))
                ctx.state((name, where))
                ctx.transition(key)
                ctx.traces += 1
                ctx.sample(key)
                if err is None and O.digest(res) != base:
                    ctx.bad(key, key + ': no error, and another result')
                if exc is KeyboardInterrupt and err is not None and not isinstance(err, KeyboardInterrupt):
                    ctx.bad(key, '%s: turned into %r' % (key, err))
                held = left_open()
                err = res = None
                gc.collect() if held else None
                if left_open():
                    ctx.bad(key, '%s: left open: %r' % (key, left_open()))
                elif held and line not in final_lines(code.co_filename):
                    ctx.bad(key, '%s: left open as long as the exception is kept: %r' % (key, held))
                now = [snap(x) for x in given] + [bf.digest(p) for p in inputs]
                if now != before:
                    ctx.bad(key, key + ': input files or data of the caller changed')
                for label, f, want in (('repeated on the same object', again, base), ('repeated', new, base_new)):
                    if f is None:
                        continue
                    ctx.transition((key, label))
                    try:
                        got = O.digest(f())
                    except Exception as e:
                        got = '%s: %s' % (type(e).__name__, str(e)[-300:])
                    if got != want:
                        ctx.bad(key, '%s, then %s: %s' % (key, label, 'another result' if len(got) == len(want) else got))
                if [snap(x) for x in given] + [bf.digest(p) for p in inputs] != before:
                    ctx.bad(key, key + ': input files or data of the caller changed by the repetition')


def opened(case, ctx):
    """A failing operation has closed its files although its error is kept."""
    name = case[1]
    out = clean()
    err = None
    try:
        _ALL[name](out)
    except Exception as e:
        err = e
    ctx.ev(name)
    ctx.transition((name, 'open'))
    if err is not None and left_open():
        ctx.bad(name, '%s: fails with its files left open: %r' % (name, left_open()))
