"""C07: a DMAP write that fails leaves the destination as it was."""
import itertools
import os
import resource
import signal
import numpy as np
import dmapcodec as dc
import dspace
import sdmodel
from snap import snap

PID = 'C07'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive fault enumeration (every failing-record position x failure kind x destination '
             'state x writer, and an operating-system write limit at every byte) on the real writers')
RULE = ('each failing write is executed and the destination compared with its state before; each storage fault must '
        'be reported; non-trivial when the call is one that must raise')
ASSUMPTIONS = ['what an operating-system fault leaves in the destination is not constrained, only that it is reported']

OLD = b'previous contents \x00\x01\xff' * 5


def failures():
    """name -> function turning a valid dict record into one that fails."""
    def put(name, value, first=False):
        def f(r):
            r = dict(r)
            if first:
                r = dict([(name, value)] + list(r.items()))
            else:
                r[name] = value
            return r
        return f

    def drop(n):
        return lambda r: {k: v for k, v in r.items() if k != n}
    out = {}
    for w in ('last', 'first'):
        p = w == 'first'
        out.update({
            'none-' + w: put('x', None, p), 'bool-' + w: put('x', True, p), 'complex-' + w: put('x', 1j, p),
            'bytes-' + w: put('x', b'abc', p), 'dict-' + w: put('x', {}, p),
            'bigint-' + w: put('x', 2 ** 31, p), 'negint-' + w: put('x', -2 ** 31 - 1, p),
            'nultext-' + w: put('x', 'a\0b', p), 'nulname-' + w: put('a\0b', 1, p),
            'surrogate-' + w: put('x', '\ud800', p), 'strarray-' + w: put('x', np.array(['a', 'bc']), p),
            'objarray-' + w: put('x', np.array([None, 1], dtype=object), p),
            'boolarray-' + w: put('x', np.array([True, False]), p),
            'complexarray-' + w: put('x', np.array([1j]), p),
            'strlist-' + w: put('x', ['a', 'b'], p), 'float16-' + w: put('x', np.float16(1), p),
            'nularrayname-' + w: put('a\0', np.array([1, 2], dtype=np.int16), p),
        })
    out['notadict'] = lambda r: 5
    out['listrecord'] = lambda r: [1, 2]
    return out


RULES = ['missing', 'extra', 'type', 'typearr']


def rule_break(t, kind, k):
    fs = list(sdmodel.fields(t))
    if kind == 'missing':
        return sdmodel.make_record(t, None, k, [fs[3]])
    if kind == 'extra':
        return sdmodel.make_record(t, None, k, [], {}, [('foo', 'i')])
    if kind == 'type':
        return sdmodel.make_record(t, None, k, [], {fs[1]: 'Q'})
    a = [f for f in fs if sdmodel.is_array(t, f)][-1]
    return sdmodel.make_record(t, None, k, [], {a: 'Q'})


def cases(tier):
    nrec = 3 if tier == 'quick' else 4
    for f in failures():
        yield ['encode', f, nrec]
    for t in sdmodel.TYPES:
        yield ['rules', t, nrec]
    for t in ('dmap',) + tuple(sdmodel.TYPES):
        yield ['empty', t]
        n = 1 if t == 'dmap' else 2
        for chunk in range(8):
            yield ['limit', t, chunk, 1 if tier == 'thorough' or t in ('dmap', 'rawacf') else 7]
    yield ['paths']


def dests(ctx):
    d = ctx.path('dest')
    if not os.path.isdir(d):
        os.mkdir(d)
    f = os.path.join(d, 'out')
    for state in ('absent', 'existing', 'emptyfile'):
        if os.path.lexists(f):
            os.unlink(f)
        if state == 'existing':
            open(f, 'wb').write(OLD)
        elif state == 'emptyfile':
            open(f, 'wb').close()
        yield state, d, f


def must_fail(ctx, key, state, d, f, call, given=None):
    s = snap(given) if given is not None else None
    before = sorted(os.listdir(d))
    old = open(f, 'rb').read() if os.path.exists(f) else None
    ctx.ev(key)
    ctx.sample(key)
    try:
        call()
    except Exception:
        pass
    else:
        return ctx.bad('accepted:' + key, key + ': the write reported success')
    if sorted(os.listdir(d)) != before:
        return ctx.bad('created:' + key, '%s: the failed write left %r in the destination folder' % (
            key, sorted(os.listdir(d))))
    if old is not None and open(f, 'rb').read() != old:
        return ctx.bad('clobbered:' + key, key + ': the failed write changed the existing destination')
    if s is not None and snap(given) != s:
        return ctx.bad('mutated:' + key, key + ': the failed write changed the records')


def writers(t):
    from pydarnio import DmapWrite, SDarnWrite
    out = []
    if t == 'dmap':
        cls = [('DmapWrite', DmapWrite), ('SDarnWrite', SDarnWrite)]
        meth = 'write_dmap'
    else:
        cls = [('SDarnWrite', SDarnWrite)]
        meth = 'write_' + t
    for n, c in cls:
        out.append((n + '.' + meth + '(name)', lambda r, f, c=c: getattr(c(r), meth)(f)))
        out.append((n + '(name).' + meth, lambda r, f, c=c: getattr(c(r, f), meth)()))
    return out


def run(case, ctx):
    fam = case[0]
    if fam == 'encode':
        bad = failures()[case[1]]
        base = [dspace.record(i)[1] for i in (0, 2, 5, 6)]
        for n in range(1, case[2] + 1):
            for pos in range(n):
                recs = [dict(r) for r in base[:n]]
                recs[pos] = bad(recs[pos])
                for wn, w in writers('dmap'):
                    for state, d, f in dests(ctx):
                        must_fail(ctx, '%s %s at %d of %d, %s' % (wn, case[1], pos, n, state), state, d, f,
                                  lambda: w(recs, f), recs if case[1] not in ('notadict',) else None)
        # the same value problem inside otherwise valid SuperDARN records
        if case[1].endswith('last'):
            for t in sdmodel.TYPES:
                good = [sdmodel.to_dict(sdmodel.make_record(t, None, k)) for k in range(3)]
                for pos in range(3):
                    recs = [dict(r) for r in good]
                    recs[pos] = bad(recs[pos])
                    for wn, w in writers(t):
                        for state, d, f in dests(ctx):
                            must_fail(ctx, '%s %s at %d, %s' % (wn, case[1], pos, state), state, d, f,
                                      lambda: w(recs, f), recs)
        # values that pass every field rule but cannot be stored
        if case[1] == 'nultext-last':
            for t in sdmodel.TYPES:
                texts = [f for f, l in sdmodel.fields(t).items() if l == 's']
                for x, pos, v in itertools.product(texts, range(3), ('a\0b', '\0', 'tail\0', '\ud800')):
                    recs = [sdmodel.to_dict(sdmodel.make_record(t, None, k)) for k in range(3)]
                    recs[pos][x] = v
                    for wn, w in writers(t):
                        for state, d, f in dests(ctx):
                            must_fail(ctx, '%s %s=%r at %d, %s' % (wn, x, v, pos, state), state, d, f,
                                      lambda: w(recs, f), recs)
        if case[1] == 'bigint-last':
            for t in sdmodel.TYPES:
                ints = [f for f, l in sdmodel.fields(t).items() if l == 'i' and not sdmodel.is_array(t, f)]
                for x, pos, v in itertools.product(ints, range(3), (2 ** 31, -2 ** 31 - 1, 2 ** 70)):
                    recs = [sdmodel.to_dict(sdmodel.make_record(t, None, k)) for k in range(3)]
                    recs[pos][x] = v
                    for wn, w in writers(t):
                        for state, d, f in dests(ctx):
                            must_fail(ctx, '%s %s=%r at %d, %s' % (wn, x, v, pos, state), state, d, f,
                                      lambda: w(recs, f), recs)
    elif fam == 'rules':
        t = case[1]
        for n in range(1, case[2] + 1):
            for pos in range(n):
                for kind in RULES:
                    recs = [sdmodel.to_dict(rule_break(t, kind, k) if k == pos else sdmodel.make_record(t, None, k))
                            for k in range(n)]
                    for wn, w in writers(t):
                        for state, d, f in dests(ctx):
                            must_fail(ctx, '%s %s in record %d of %d, %s' % (wn, kind, pos, n, state), state, d, f,
                                      lambda: w(recs, f), recs)
        for u in sdmodel.TYPES:
            if u != t:
                recs = [sdmodel.to_dict(sdmodel.make_record(u, None, k)) for k in range(2)]
                for wn, w in writers(t):
                    for state, d, f in dests(ctx):
                        must_fail(ctx, '%s of %s records, %s' % (wn, u, state), state, d, f, lambda: w(recs, f), recs)
    elif fam == 'empty':
        import collections
        t = case[1]
        for wn, w in writers(t):
            for state, d, f in dests(ctx):
                for nm, e in (('list', []), ('deque', collections.deque()), ('tuple', ())):
                    must_fail(ctx, '%s of an empty %s, %s' % (wn, nm, state), state, d, f, lambda: w(e, f))
                rec = [dspace.record(0)[1]] if t == 'dmap' else [sdmodel.to_dict(sdmodel.make_record(t))]
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    must_fail(ctx, '%s without a file name, %s' % (wn, state), state, d, f, lambda: w(rec, ''), rec)
                finally:
                    os.chdir(cwd)
    elif fam == 'paths':
        for t in ('dmap',) + tuple(sdmodel.TYPES):
            rec = [dspace.record(0)[1]] if t == 'dmap' else [sdmodel.to_dict(sdmodel.make_record(t))]
            for wn, w in writers(t):
                for state, d, f in dests(ctx):
                    if state == 'emptyfile':
                        continue
                    must_fail(ctx, '%s into a missing folder, %s' % (wn, state), state, d, f,
                              lambda: w(rec, os.path.join(d, 'no', 'out')), rec)
                    must_fail(ctx, '%s onto a folder, %s' % (wn, state), state, d, f, lambda: w(rec, d), rec)
                    must_fail(ctx, '%s below a file, %s' % (wn, state), state, d, f,
                              lambda: w(rec, os.path.join(f, 'x')), rec)
                    must_fail(ctx, '%s onto a full device, %s' % (wn, state), state, d, f,
                              lambda: w(rec, '/dev/full'), rec)
                    must_fail(ctx, '%s with an over-long name, %s' % (wn, state), state, d, f,
                              lambda: w(rec, os.path.join(d, 'n' * 300)), rec)
    elif fam == 'limit':
        limit(case, ctx)


def limit(case, ctx):
    """The operating system refuses to store more than k bytes, every k."""
    t, chunk, step = case[1:]
    ref = [dspace.record(i)[0] for i in (2, 3)] if t == 'dmap' else [sdmodel.make_record(t, None, k) for k in range(2)]
    if t == 'dmap':
        ref = [dspace.record(i)[0] for i in (2, 3)]
        given = [dspace.record(i)[1] for i in (2, 3)]
    else:
        given = [sdmodel.to_dict(r) for r in ref]
    want = dc.encode(ref)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for wn, w in writers(t):
        for k in range(chunk, len(want) + 3, 8):
            if (k // 8) % step and k < len(want) - 2:
                continue
            for state, d, f in dests(ctx):
                if state == 'emptyfile':
                    continue
                key = '%s with room for %d of %d bytes, %s' % (wn, k, len(want), state)
                err = None
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
                try:
                    w(given, f)
                except Exception as e:
                    err = e
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                ctx.ev(key if k < len(want) else None)
                if err is None:
                    if k < len(want):
                        return ctx.bad('limit:' + key, key + ': success reported')
                    if open(f, 'rb').read() != want:
                        return ctx.bad('limit:' + key, key + ': success reported but the file is wrong')
                elif k >= len(want):
                    return ctx.bad('limit:' + key, '%s: raised %r' % (key, err))
