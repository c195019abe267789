"""C17: results never depend on what was processed earlier in the process."""
import os
import struct
import sys
import tempfile
import opspace as O

PID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: exhaustive exploration of all histories of whole operations up to a length (all ordered pairs with '
             'an operation of a core alphabet; all pairs and all triples of the core alphabet in thorough), each executed on the real code in a process of its own '
             '(forked at every branching point) and compared with the same operation in a fresh process')
RULE = ('every history is executed; its last operation must give the result or error it gives first in a fresh process, and '
        'the results of the operations before it must not change; every history of two or more operations is non-trivial')
ASSUMPTIONS = ['operations are those of mc/opspace.py: all versions, types, structures, conversions, failing requests, '
               'all SuperDARN types, plain DMAP',
               'errors are the same when class and message are the same',
               'states = distinct process histories at which the next operation was explored']

_D = None
_OPS = None
_BASE = None


def names(small=False):
    return list(O.alphabet('/nonexistent', small))


def cases(tier):
    small = set(names(True))
    for n in names():
        # quick: every pair with at least one operation of the smaller alphabet
        yield ['pair' if n in small or tier == 'thorough' else 'half', n]
    if tier == 'thorough':
        s = names(True)
        for a in s:
            for b in s:
                yield ['triple', a, b]
        for a in names():
            yield ['chain', a]


def worker_init(scratch):
    global _D, _OPS
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='ops-')
    O.prepare(_D)
    _OPS = O.alphabet(_D)


def child(f):
    """Run f in a forked process, return what it returns (list of str)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            s = '\x00'.join(f()).encode('utf-8', 'replace')
            while s:
                s = s[os.write(w, s):]
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        return None
    return buf.decode('utf-8').split('\x00')


def out_dir():
    d = os.path.join(_D, 'out')
    os.makedirs(d, exist_ok=True)
    return d


def baseline(n):
    global _BASE
    if _BASE is None:
        _BASE = {}
    if n not in _BASE:
        def f():
            d, _, t = O.attempt(_OPS[n], out_dir())
            return [d, t]
        _BASE[n] = child(f)
    return _BASE[n]


def run(case, ctx):
    fam = case[0]
    hist = case[1:]
    nxt = names(fam in ('triple', 'half'))
    if fam == 'chain':
        return chain(ctx, hist[0])

    def after():
        kept = []
        msgs = []
        for h in hist:
            d, r, t = O.attempt(_OPS[h], out_dir())
            kept.append((h, d, r))
            if [d, t] != BASE[h]:
                msgs.append('%s|%s|%s' % (h, BASE[h][1], t))
        outs = []
        for b in nxt:
            def f():
                d, r, t = O.attempt(_OPS[b], out_dir())
                changed = [h for h, d0, r0 in kept if r0 is not None and O.digest(r0) != d0]
                return [d, t] + changed
            got = child(f)
            outs.append('\x01'.join(['died'] if got is None else got))
        return outs
    global BASE
    BASE = {n: baseline(n) for n in set(nxt) | set(hist)}
    got = child(after)
    if got is None:
        ctx.bad('died', 'the process died after %r' % (hist,))
        return
    ctx.state(tuple(hist))
    for b, line in zip(nxt, got):
        key = '%s > %s' % (' > '.join(hist), b)
        ctx.ev((key,))
        ctx.transition((tuple(hist), b))
        ctx.traces += 1
        ctx.sample(key)
        p = line.split('\x01')
        if p[0] == 'died':
            ctx.bad(key, '%s: the process died' % key)
            continue
        if BASE[b] is None:
            ctx.bad(b, '%s on its own: the process died' % b)
            continue
        if p[:2] != BASE[b]:
            ctx.bad(key, '%s: gives %r, in a fresh process %r%s' % (key, p[1], BASE[b][1], '' if p[1] != BASE[b][1] else ' (other data)'))
        if len(p) > 2:
            ctx.bad(key, '%s: changed the earlier result of %s' % (key, p[2:]))


def chain(ctx, first):
    """One long history: every operation after every other, in one process."""
    al = names()
    i = al.index(first)
    order = [al[(i + k * s) % len(al)] for s in (1, 7, 31) for k in range(len(al))]
    base = {n: baseline(n) for n in al}

    def f():
        out = []
        for n in order:
            d, _, t = O.attempt(_OPS[n], out_dir())
            out.append('ok' if [d, t] == base[n] else t)
        return out
    got = child(f)
    ctx.ev(('chain', first), len(order))
    if got is None:
        ctx.bad('chain', 'the process died')
        return
    for k, (n, t) in enumerate(zip(order, got)):
        if t != 'ok':
            ctx.bad('chain %s %d' % (first, k), 'operation %d (%s) of the chain from %s gives %r, in a fresh process %r'
                    % (k, n, first, t, base[n][1]))
