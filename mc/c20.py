"""C20: storage failures and cut-short Borealis files are never passed off as success."""
import collections
import os
import resource
import signal
import tempfile
import bfile as bf
import opspace as O

PID = 'C20'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive fault-point enumeration - every Borealis writing, restructuring and converting operation is run '
             'in a child process in which storage ends after k bytes, for an enumerated set of k over the whole output, and every '
             'reading operation is run on its input cut short after k bytes; the real code and the real HDF5 library run')
RULE = ('an operation may only report success if its output is complete and equal to the one of an undisturbed run; the input file '
        'must be as before in every case; an input cut short must be refused; every fault point is non-trivial')
ASSUMPTIONS = ['storage ends by the file size limit of the process (RLIMIT_FSIZE, EFBIG), which persists once reached',
               'a child that dies (the HDF5 library can crash when closing a file it could not write) has not reported success',
               'states = fault points, transitions = (operation, fault point)']


def _spread(size, n, tail):
    ks = {round(i * size / n) for i in range(n)} | set(range(max(0, size - tail[0]), size, tail[1])) | {0, 1, size - 1}
    return sorted(k for k in ks if 0 <= k < size)


def kinds(tier):
    for v, ft, st in O.borealis_kinds():
        for op in ('write', 'restructure', 'convert'):
            if op == 'restructure' and ft == 'rawrf' or op == 'convert' and ft not in ('rawacf', 'bfiq'):
                continue
            yield op, v, ft, st


def cases(tier):
    for op, v, ft, st in kinds(tier):
        for named in (0, 1) if tier != 'quick' else (0,) if sum(map(ord, op + v + ft + st)) % 2 else (1,):
            parts = 1 if tier == 'quick' else 8
            for part in range(parts):
                yield ['limit', op, v, ft, st, named, part, parts, tier]
    for v, ft, st in O.borealis_kinds():
        yield ['cut', v, ft, st, tier]


_D = None


def worker_init(scratch):
    global _D
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='sto-')


def source(v, ft, st, name='in.hdf5'):
    p = os.path.join(_D, name)
    if os.path.exists(p):
        os.unlink(p)
    (bf.write_site if st == 'site' else bf.write_array)(p, O.bdata(v, ft, st))
    return p


def operation(op, v, ft, st, named):
    """(input path or None, f(destination), f that tells what an output holds)"""
    import pydarnio as P
    if op == 'write':
        data = O.bdata(v, ft, st)
        return None, lambda o: P.BorealisWrite(o, data, ft, *([st] if named else [])), O.hdf
    p = source(v, ft, st)
    if op == 'restructure':
        return p, lambda o: P.BorealisRestructure(p, o, ft, 'array' if st == 'site' else 'site'), O.hdf
    kw = {'borealis_file_structure': st} if named else {}

    def raw(o):
        with open(o, 'rb') as f:
            return f.read()
    return p, lambda o: P.BorealisConvert(p, ft, o, 2, **kw), raw


def child(f, out, limit):
    """(how it ended, content-free) of f(out) with at most `limit` bytes per file"""
    pid = os.fork()
    if pid == 0:
        rc = 12
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            n = os.open('/dev/null', os.O_WRONLY)
            os.dup2(n, 1)
            os.dup2(n, 2)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            f(out)
            rc = 0
        except Exception:
            rc = 10
        except BaseException:
            rc = 11
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'killed'
    return {0: 'success', 10: 'error'}.get(os.WEXITSTATUS(st), 'odd')


def run(case, ctx):
    return dict(limit=limit, cut=cut)[case[0]](case[1:], ctx)


def limit(case, ctx):
    op, v, ft, st, named, part, parts, tier = case
    src, f, content = operation(op, v, ft, st, named)
    out = os.path.join(_D, 'out')
    key = '%s %s %s %s%s' % (op, v, ft, st, '' if named else ', structure not named')

    def away():
        if os.path.lexists(out):
            os.unlink(out)
    away()
    how = child(f, out, None)
    if how != 'success':
        ctx.bad(key, '%s: ends with %s although nothing is in its way' % (key, how))
        return
    want = O.digest(content(out))
    size = os.path.getsize(out)
    before = src and bf.digest(src)
    ks = _spread(size, 40, (96, 24)) if tier == 'quick' else _spread(size, max(400, size // 256), (512, 8))
    tally = collections.Counter()
    for i, k in enumerate(ks):
        if i % parts != part:
            continue
        away()
        how = child(f, out, k)
        what = '%s, storage ends after %d of %d bytes' % (key, k, size)
        ctx.ev((key, k))
        ctx.state((key, k))
        ctx.transition(what)
        ctx.traces += 1
        ctx.sample(what + ': ' + how)
        tally[how] += 1
        if how == 'success':
            try:
                same = O.digest(content(out)) == want
            except Exception:
                same = False
            if not same:
                ctx.bad(key, what + ': reports success')
        elif how == 'odd':
            ctx.bad(key, what + ': neither success nor an ordinary error')
        if src and bf.digest(src) != before:
            ctx.bad(key, what + ': the input file changed')
            src, f, content = operation(op, v, ft, st, named)
            before = bf.digest(src)
    for how, n in tally.items():
        ctx.count('ended_with_' + how, n)
    # destinations that cannot be created
    sub = os.path.join(_D, 'sub')
    os.makedirs(sub, exist_ok=True)
    for label, dest in (('a missing folder', os.path.join(_D, 'no', 'out')), ('a folder', sub)):
        ctx.transition((key, label))
        if child(f, dest, None) == 'success':
            ctx.bad(key, '%s: reports success for %s as destination' % (key, label))
        if src and bf.digest(src) != before:
            ctx.bad(key, '%s: the input file changed, destination %s' % (key, label))
    away()


def cut(case, ctx):
    """Every operation that reads refuses a file that was cut short."""
    import pydarnio as P
    v, ft, st, tier = case
    p = source(v, ft, st)
    with open(p, 'rb') as f:
        raw = f.read()
    q, out = os.path.join(_D, 'cut.hdf5'), os.path.join(_D, 'out')
    ops = {'read as ' + st: lambda: P.BorealisRead(q, ft, st).records, 'read': lambda: P.BorealisRead(q, ft).records}
    if ft != 'rawrf':
        ops['restructure'] = lambda: P.BorealisRestructure(q, out, ft, 'array' if st == 'site' else 'site')
    if ft in ('rawacf', 'bfiq'):
        ops['convert'] = lambda: P.BorealisConvert(q, ft, out, 2)
        ops['convert as ' + st] = lambda: P.BorealisConvert(q, ft, out, 2, borealis_file_structure=st)
    n = len(raw)
    for k in _spread(n, 60, (64, 8)) if tier == 'quick' else _spread(n, 1200, (1024, 1)):
        with open(q, 'wb') as f:
            f.write(raw[:k])
        for name, f in ops.items():
            key = '%s of %s %s %s cut short' % (name, v, ft, st)
            what = '%s after %d of %d bytes' % (key, k, n)
            ctx.ev((key, k))
            ctx.state((key, k))
            ctx.transition(what)
            ctx.sample(what)
            if os.path.lexists(out):
                os.unlink(out)
            try:
                f()
            except Exception:
                pass
            else:
                ctx.bad(key, what + ': accepted')
            with open(q, 'rb') as g:
                if g.read() != raw[:k]:
                    ctx.bad(key, what + ': the input file changed')
                    with open(q, 'wb') as h:
                        h.write(raw[:k])
