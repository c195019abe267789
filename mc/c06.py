"""C06: SuperDARN reading is complete, repeatable, leaves its input alone."""
import itertools
import os
import numpy as np
import dmapcodec as dc
import sdmodel
from snap import snap

PID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: exhaustive enumeration of all call sequences on one reader up to a depth over valid, '
             'rule-breaking and truncated files; the outcome of every call on the real reader is compared with a '
             'state model')
RULE = ('every sequence of reader calls up to the depth on every input (file and stream) is executed; each read must '
        'give the full contents or raise as the model says, whatever came before; each sequence is a case')
ASSUMPTIONS = ['the integrity check may also report that it must be run before reading',
               'the record queries may return the results of any earlier successful read (or nothing yet)']


def inputs():
    """name -> (own type, records, bytes)."""
    out = {}
    for t in sdmodel.TYPES:
        recs = [sdmodel.make_record(t, None, k) for k in range(3)]
        out[t] = (t, recs, dc.encode(recs))
    recs = [sdmodel.make_record('rawacf', None, k, ['stid'] if k == 1 else []) for k in range(3)]
    out['rawacf-bad2'] = ('rawacf', recs, dc.encode(recs))
    recs = [sdmodel.make_record('fitacf', ['types', 'fitted_fields'] if k else None, k) for k in range(3)]
    out['fitacf-mixed'] = ('fitacf', recs, dc.encode(recs))
    recs = [sdmodel.make_record('snd', None, k) for k in range(3)]
    out['snd-cut'] = ('snd', None, dc.encode(recs)[:-30])
    recs = [sdmodel.make_record('grid', ['types'], 0), sdmodel.make_record('grid', None, 1)]
    out['grid-cut2'] = ('grid', None, dc.encode(recs) + dc.encode(recs)[:25])
    recs = [sdmodel.make_record('rawacf', ['correlation_field', 'digitizing_field'], k) for k in range(2)]
    # satisfies the rules of no single other type, few fields: fast, both rawacf-like
    recs = [sdmodel.make_record('rawacf', None, 0), sdmodel.make_record('rawacf', None, 0)]
    out['same2'] = ('rawacf', recs, dc.encode(recs))
    return out


def ops(own):
    other = {'rawacf': ['fitacf', 'grid'], 'fitacf': ['rawacf', 'snd'], 'iqdat': ['rawacf', 'map'],
             'grid': ['map', 'rawacf'], 'map': ['grid', 'iqdat'], 'snd': ['fitacf', 'grid']}[own]
    return ['read:' + own] + ['read:' + o for o in other] + ['records', 'integrity', 'get', 'getdmap']


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for name, (own, _, _) in inputs().items():
        for mode in ('stream', 'file'):
            d = depth if tier == 'thorough' or name in ('rawacf', 'snd', 'rawacf-bad2', 'snd-cut', 'grid-cut2',
                                                        'same2') else 3
            for op in ops(own):
                yield [name, mode, d, op]


def run(case, ctx):
    name, mode, depth, first = case
    own, recs, data = inputs()[name]
    o = ops(own)
    for rest in itertools.product(o, repeat=depth - 1):
        one(ctx, name, mode, own, recs, data, (first,) + rest)


def one(ctx, name, mode, own, recs, data, seq):
    from pydarnio import SDarnRead
    from pydarnio import dmap_exceptions
    f = ctx.path('in')
    src = bytearray(data)
    if mode == 'file':
        open(f, 'wb').write(data)
        rd = SDarnRead(f)
    else:
        rd = SDarnRead(src, True)
    key = '%s:%s:%s' % (name, mode, ','.join(seq))
    ctx.ev(key)
    ctx.traces += 1
    ctx.sample(key)
    earlier = []            # (result object, its snapshot)
    dmaps = []
    last = None             # model: what the last read did
    good = set()
    ctx.state((name, last, ()))
    for i, op in enumerate(seq):
        before = (name, last, tuple(sorted(good)))
        k = '%s:%s:%s@%d' % (name, mode, ','.join(seq[:i + 1]), i)
        what, _, arg = op.partition(':')
        err = got = None
        try:
            if what == 'read':
                got = sdmodel.read(rd, arg)
            elif what == 'records':
                got = rd.read_records()
            elif what == 'integrity':
                rd.test_initial_data_integrity()
            elif what == 'get':
                got = rd.get_records
            else:
                got = rd.get_dmap_records
        except Exception as e:
            err = e

        def fail(text):
            ctx.bad(k, '%s: %s' % (k, text))
        if what in ('read', 'records'):
            ok = recs is not None and (what == 'records' or
                                       not any(sdmodel.verdict(arg, sdmodel.types_of(r)) for r in recs))
            if ok:
                if err is not None:
                    return fail('raised %r' % err)
                d = dc.diff_dicts(recs, got)
                if d:
                    return fail(d)
                earlier.append((got, snap(got)))
                q = rd.get_dmap_records
                d = dc.diff_dmap(recs, q)
                if d:
                    return fail('structures: ' + d)
                dmaps.append((q, snap(q)))
                if what == 'read':
                    d = dc.diff_dicts(recs, rd.get_records)
                    if d:
                        return fail('get_records right after the read: ' + d)
                    good.add(arg)
            elif err is None:
                return fail('returned %d records of data that breaks the rules' % len(got))
            last = (op, ok)
        elif what == 'integrity':
            ok = dc.chain_ok(data)
            if err is None and not ok:
                return fail('the integrity check accepted damaged data')
            if err is not None and ok and not (isinstance(err, dmap_exceptions.CursorError) and i > 0):
                return fail('the integrity check raised %r' % err)
            last = ('integrity', err is None)
        elif what == 'get':
            if err is not None:
                return fail('get_records raised %r' % err)
            if len(got) and not any(snap(got) == s for _, s in earlier):
                return fail('get_records returned %d records that no read returned' % len(got))
        else:
            if err is not None:
                return fail('get_dmap_records raised %r' % err)
            if recs is not None:
                d = dc.diff_dmap(recs[:len(got)], got)
                if d:
                    return fail('get_dmap_records: ' + d)
        ctx.state((name, last, tuple(sorted(good))))
        ctx.transition((before, op, (name, last, tuple(sorted(good)))))
    # the caller uses the buffer again, and changes what was handed out
    src2, src[:] = bytes(src), b'\xa5' * len(src)
    reused = any(snap(o) != s for o, s in earlier + dmaps)
    src[:] = src2
    if reused:
        return ctx.bad('reused:' + key, key + ': records handed out change when the caller uses the buffer again')
    for o, s in earlier + dmaps:
        if snap(o) != s:
            return ctx.bad('changed:' + key, key + ': records handed out earlier were changed')
    if bytes(src) != data:
        return ctx.bad('buffer:' + key, key + ": the caller's buffer was changed")
    if mode == 'file' and open(f, 'rb').read() != data:
        return ctx.bad('file:' + key, key + ': the input file was changed')
    for o, _ in earlier[-1:]:
        for r in o:
            for x in r.values():
                if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
                    x[...] = np.zeros((), x.dtype) if x.any() else np.ones((), x.dtype)
    if bytes(src) != data:
        return ctx.bad('shared:' + key, key + ": changing the records changes the caller's buffer")
    if mode == 'file' and open(f, 'rb').read() != data:
        return ctx.bad('shared:' + key, key + ': changing the records changes the input file')
