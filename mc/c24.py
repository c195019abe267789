"""C24: what a killed process leaves behind is never taken for other data."""
import collections
import contextlib
import ctypes
import io
import json
import os
import signal
import subprocess
import sys
import tempfile

PID = 'C24'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('model checking: exhaustive crash-point enumeration - every writing, restructuring and converting operation is run in a '
             'process that is killed (SIGKILL, delivered by a preloaded library) at every call that creates, truncates, extends or '
             'writes a file, with torn variants of each write; after every crash the real readers examine what is left')
RULE = ('after every crash point the input is as before, and the output path is absent, refused by the reader, or holds the complete '
        'data (or the previous data, or leading whole records, where the property allows that); the operation repeated in a new '
        'process gives the complete result; every crash point is non-trivial')
ASSUMPTIONS = ['the process dies, the operating system does not: all writes made before the crash are on disk',
               'a torn write stores a leading part of the bytes of one call',
               'states = distinct contents left at the output path, transitions = crash points']
CASE_LIMIT = {'quick': 200, 'thorough': 3000}

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static long at = -1, seen = 0, torn = 0;
static int on = 0;
void crash_arm(long a, long t) { at = a; torn = t; seen = 0; on = 1; }
void crash_off(void) { on = 0; }
long crash_seen(void) { return seen; }
static int hit(void) { return on && seen++ == at; }
static void die(void) { for (;;) { kill(getpid(), SIGKILL); pause(); } }
static size_t part(size_t n) {           /* torn > 0: that many bytes; -1: half; -2: all but one */
    size_t k = torn == -1 ? n / 2 : torn == -2 ? (n ? n - 1 : 0) : (size_t)torn;
    return k < n ? k : n;
}
static int reg(int fd) { struct stat s; int e = errno, r = fstat(fd, &s) == 0 && S_ISREG(s.st_mode); errno = e; return r; }
#define NEXT(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    NEXT(pwrite64);
    if (on && reg(fd) && hit()) { if (part(n) && real(fd, b, part(n), o) < 0) die(); die(); }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    NEXT(write);
    if (on && reg(fd) && hit()) { if (part(n) && real(fd, b, part(n)) < 0) die(); die(); }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    NEXT(writev);
    if (on && reg(fd) && hit()) { if (part(1) && real(fd, v, 1) < 0) die(); die(); }
    return real(fd, v, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    NEXT(sendfile64);
    if (on && reg(out) && hit()) {
        struct stat s; size_t m = n;
        if (fstat(in, &s) == 0 && (size_t)s.st_size < m) m = s.st_size;
        if (part(m) && real(out, in, o, part(m)) < 0) die();
        die();
    }
    return real(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    NEXT(copy_file_range);
    if (on && reg(out) && hit()) {
        struct stat s; size_t m = n;
        if (fstat(in, &s) == 0 && (size_t)s.st_size < m) m = s.st_size;
        if (part(m) && real(in, oi, out, oo, part(m), f) < 0) die();
        die();
    }
    return real(in, oi, out, oo, n, f);
}
int ftruncate64(int fd, off64_t o) { NEXT(ftruncate64); if (on && reg(fd) && hit()) die(); return real(fd, o); }
int ftruncate(int fd, off_t o) { return ftruncate64(fd, o); }
int unlink(const char *p) { NEXT(unlink); if (hit()) die(); return real(p); }
int rename(const char *p, const char *q) { NEXT(rename); if (hit()) die(); return real(p, q); }
static int changes(int flags) { return flags & (O_CREAT | O_TRUNC); }
int open64(const char *p, int flags, ...) {
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap);
    NEXT(open64);
    if (changes(flags) && hit()) die();
    return real(p, flags, m);
}
int open(const char *p, int flags, ...) {
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap);
    return open64(p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap);
    NEXT(openat64);
    if (changes(flags) && hit()) die();
    return real(d, p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
    mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & O_CREAT) m = va_arg(ap, mode_t); va_end(ap);
    return openat64(d, p, flags, m);
}
'''

_D = None


def worker_init(scratch):
    global _D
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='crash-')
    with open(os.path.join(_D, 'shim.c'), 'w') as f:
        f.write(SHIM)
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(_D, 'shim.so'), os.path.join(_D, 'shim.c'), '-ldl'],
                   check=True)


def cases(tier):
    import opspace as O
    import sdmodel
    for v, ft, st in O.borealis_kinds():
        for op in ('write', 'restructure', 'copy', 'convert'):
            if op in ('restructure', 'copy') and ft == 'rawrf' or op == 'convert' and ft not in ('rawacf', 'bfiq'):
                continue
            for c in ([None] if op != 'write' or tier == 'quick' else [None, 'gzip', 'lzf']):
                yield [op, v, ft, st, c, tier]
    for t in list(sdmodel.TYPES) + ['dmap']:
        yield ['sdarn', t, '', '', None, tier]


def torn(tier):
    return (0, -1) if tier == 'quick' else (0, 1, 2, 4, 8, 16, 64, 100, 256, 512, 1000, 2048, 4096, 8192, -1, -2)


def run(case, ctx):
    env = dict(os.environ, LD_PRELOAD=os.path.join(_D, 'shim.so'))
    d = tempfile.mkdtemp(dir=_D)
    p = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps(case), d], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    line = p.stdout.decode().strip().split('\n')[-1]
    key = ' '.join(str(x) for x in case[:5] if x)
    if p.returncode or not line.startswith('{'):
        raise RuntimeError('%s: the examining process ended with %s: %s' % (key, p.returncode, p.stderr.decode()[-800:]))
    r = json.loads(line)
    for n, t, left in r['points']:
        ctx.ev((key, n, t))
        ctx.transition((key, n, t))
        ctx.state((key, left))
        ctx.traces += 1
        ctx.sample('%s killed at call %d (torn %d): %s' % (key, n, t, left))
    for k, n in r['tally'].items():
        ctx.count(k, n)
    for text in r['bad']:
        ctx.bad(key, '%s: %s' % (key, text))


# ---- the process in which the operations run and die ----

def operation(case, d):
    """(input path or None, f(destination), read(path) -> comparable, may leave leading records, may find the previous data)"""
    import bfile as bf
    import opspace as O
    import pydarnio as P
    import sdmodel
    op, v, ft, st, comp, tier = case
    if op == 'sdarn':
        t = v
        recs = O.sdrecs('rawacf' if t == 'dmap' else t)

        def write(o, recs=recs):
            x = P.dict2dmap([sdmodel.to_dict(r) for r in recs])
            if t == 'dmap':
                P.DmapWrite(x).write_dmap(o)
            else:
                sdmodel.write(P.SDarnWrite(x), t, o)

        def read(p):
            r = P.DmapRead(p).read_records() if t == 'dmap' else sdmodel.read(P.SDarnRead(p), t)
            return [O.digest(x) for x in r]
        return None, write, [read], True, lambda o: write(o, recs[1:] + recs)

    def bread(s):
        def f(p):
            r = P.BorealisRead(p, ft, s) if s else P.BorealisRead(p, ft)
            s2 = r.borealis_file_structure
            if s2 == 'site':
                return [(k, O.digest(x)) for k, x in r.records.items()]
            return [('array', O.digest(r.arrays))]
        return f
    reads = [bread(s) for s in ('site', 'array', None) if not (s == 'array' and ft == 'rawrf')]
    if op == 'write':
        data = O.bdata(v, ft, st)
        kw = {'hdf5_compression': comp} if comp else {}
        return None, lambda o: P.BorealisWrite(o, data, ft, st, **kw), reads, False, None
    src = os.path.join(d, 'in.hdf5')
    (bf.write_site if st == 'site' else bf.write_array)(src, O.bdata(v, ft, st))
    if op == 'convert':
        t = {'rawacf': 'rawacf', 'bfiq': 'iqdat'}[ft]

        def read(p):
            return [O.digest(x) for x in sdmodel.read(P.SDarnRead(p), t)]

        def previous(o):
            with open(o, 'wb') as f:
                import dmapcodec as dc
                f.write(dc.encode(O.sdrecs(t)))
        return src, lambda o: P.BorealisConvert(src, ft, o, 2, st), [read], True, previous
    to = st if op == 'copy' else 'array' if st == 'site' else 'site'
    # array files are turned into site files record by record
    return src, lambda o: P.BorealisRestructure(src, o, ft, to), reads, op == 'restructure' and to == 'site', None


def child(lib, f, out, n, t):
    """True if the process was killed at call n"""
    pid = os.fork()
    if pid == 0:
        rc = 12
        try:
            signal.alarm(60)
            lib.crash_arm(n, t)
            f(out)
            lib.crash_off()
            rc = 0
        except BaseException:
            rc = 10
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'killed' if os.WTERMSIG(st) == signal.SIGKILL else 'signal %d' % os.WTERMSIG(st)
    return {0: 'success', 10: 'error'}.get(os.WEXITSTATUS(st), 'odd')


def serve(case, d):
    import bfile as bf
    tier = case[-1]
    lib = ctypes.CDLL(None)
    lib.crash_arm.argtypes = [ctypes.c_long, ctypes.c_long]
    src, f, reads, leading, previous = operation(case, d)
    o1 = os.path.join(d, 'o')
    os.makedirs(o1)
    out = os.path.join(o1, 'out')
    points, tally, bad = [], collections.Counter(), []

    def contents(p):
        got = []
        for r in reads:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got.append(r(p))
            except Exception:
                got.append(None)
        return got

    def away():
        if os.path.lexists(out):
            os.unlink(out)

    for prev in [None] + ([previous] if previous else []):
        old = None
        away()
        if child(lib, f, out, -1, 0) != 'success':
            return {'points': points, 'tally': tally, 'bad': ['fails although nothing is in its way']}
        full = contents(out)
        if all(x is None for x in full):
            return {'points': points, 'tally': tally, 'bad': ['the complete output cannot be read']}
        if prev:
            prev(out)
            with open(out, 'rb') as g:
                oldraw = g.read()
            old = contents(out)
        before = src and bf.digest(src)
        n = 0
        while True:
            ended = False
            for t in torn(tier):
                for x in os.listdir(o1):
                    os.unlink(os.path.join(o1, x))
                if prev:
                    with open(out, 'wb') as g:
                        g.write(oldraw)
                how = child(lib, f, out, n, t)
                if how == 'success':
                    ended = True
                    break
                what = 'killed at file call %d (torn %d)%s' % (n, t, ', over previous data' if prev else '')
                if how != 'killed':
                    bad.append('%s: ended with %s' % (what, how))
                    ended = True
                    break
                left = 'nothing'
                if os.path.lexists(out):
                    got = contents(out)
                    left = 'refused'
                    for g, w, o in zip(got, full, old or [None] * len(got)):
                        if g is None:
                            continue
                        if g == w:
                            left = 'complete'
                        elif old and g == o:
                            left = 'previous'
                        elif leading and w and g and g == w[:len(g)]:
                            left = 'leading records'
                        else:
                            left = 'wrong'
                            bad.append('%s: the output path is read as %d record(s) that are not what was being written' % (what, len(g)))
                            break
                elif old:
                    left = 'previous data gone'
                points.append((n, t, left))
                tally['left_' + left.replace(' ', '_')] += 1
                if src and bf.digest(src) != before:
                    bad.append('%s: the input file changed' % what)
                    return {'points': points, 'tally': tally, 'bad': bad}
                if t == 0:
                    # the same again, over what is left where writing replaces, else into the empty place
                    if previous is None:
                        away()
                    if child(lib, f, out, -1, 0) != 'success' or contents(out) != full:
                        bad.append('%s: the operation cannot be repeated' % what)
                if len(bad) > 5:
                    return {'points': points, 'tally': tally, 'bad': bad}
            if ended:
                break
            n += 1
        tally['file_calls'] += n
        if n == 0:
            bad.append('no file call seen')
    return {'points': points, 'tally': tally, 'bad': bad}


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    signal.alarm(1800)
    import core
    core.prepare_import()
    keep = os.dup(1)
    null = os.open('/dev/null', os.O_WRONLY)
    os.dup2(null, 1)
    res = serve(json.loads(sys.argv[1]), sys.argv[2])
    with os.fdopen(keep, 'w') as fh:
        fh.write(json.dumps(res) + '\n')
