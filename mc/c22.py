"""C22: results do not depend on the environment of the process."""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import types
import dmapcodec as dc
import opspace as O
from snap import snap

PID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: exhaustive product of an operation alphabet with a finite set of process environments (time zones, '
             'working directories and spellings of paths, access rights, logging, hash seeds, optimisation, locales), every operation executed '
             'on the real code in each environment and compared with the reference environment')
RULE = ('for every operation of mc/opspace.py and every environment, the result (or the error, without the file name and '
        'the order of names in it) must be the one of the reference environment (UTC, absolute paths, no logging); '
        'every environment other than the reference is non-trivial')
ASSUMPTIONS = ['time zones given as POSIX rules (no zone database needed)', 'the comment naming the source file of a '
               'conversion is compared without the path', 'states = environments, transitions = (environment, operation)']

ZONES = ['UTC', 'VST3:30VDT,M3.2.0,M11.1.0', 'AAA-14', 'BBB12', 'CCC5CCD,M10.1.0,M4.1.0']
PATHS = ['abs', 'rel', 'dot', 'updown', 'link', 'odd']
LOGS = ['off', 'debug']
# an unprivileged user who may read the input but not change it
GUEST = ('UTC', 'guest', 'off')
NOBODY = 65534
PROCS = [dict(PYTHONHASHSEED='1'), dict(PYTHONHASHSEED='77'), dict(PYTHONHASHSEED='4000000000', TZ='AAA-14'),
         dict(PYTHONOPTIMIZE='1'), dict(PYTHONOPTIMIZE='2', PYTHONHASHSEED='5'),
         dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), dict(LC_ALL='POSIX', LANG='', PYTHONUTF8='0'),
         dict(LC_ALL='C.UTF-8'), dict(LANG='fr_FR.UTF-8', LC_TIME='fr_FR.UTF-8'), dict(HDF5_USE_FILE_LOCKING='TRUE'),
         dict(HOME='/nonexistent', TMPDIR='/nonexistent')]


def names():
    return list(O.alphabet('/nonexistent'))


def cases(tier):
    for n in names():
        yield ['op', n, tier]
    for i in range(len(PROCS)):
        yield ['proc', i, tier]


_D = None
_OPS = None
_GUEST = False


def worker_init(scratch):
    global _D, _OPS, _GUEST
    _D = tempfile.mkdtemp(dir=os.path.dirname(scratch), prefix='env-')
    O.prepare(_D)
    _OPS = O.alphabet(_D)
    _GUEST = os.geteuid() == 0 and child(probe) == 1


def probe():
    """In a forked process: may an unprivileged user work here at all?"""
    import pydarnio
    d = enter(*GUEST)
    with open(os.path.join(d, 'probe'), 'w') as f:
        f.write('x')
    for m in (pydarnio.__file__, os.__file__):
        os.listdir(os.path.dirname(m))
    return int(os.geteuid() == NOBODY)


def normal(name, r, out):
    """The result without the name of the source file."""
    if name.startswith('convert'):
        def strip(t):
            return re.sub(r'file: .* record ', 'file: F record ', t, flags=re.S)
        recs = [([(x[0], x[1], strip(x[2]) if x[0] == 'combf' else x[2]) for x in sc], ar) for sc, ar in dc.decode(r[0])]
        dicts = [{k: strip(v) if k == 'combf' else v for k, v in d.items()} for d in r[1]]
        r = [recs, dicts] + r[2:]
    return O.digest(unordered(r))


def unordered(x):
    """Dictionaries by key: the order of fields carries nothing."""
    if isinstance(x, dict):
        return [type(x).__name__] + [(k, unordered(x[k])) for k in sorted(x)]
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return [unordered(v) for v in x]
    return x


def attempt(name, f, out):
    for n in os.listdir(out or '.'):
        os.unlink(os.path.join(out, n))
    try:
        r = f(out)
    except Exception as e:
        t = str(e).replace(os.path.join(out, 'x')[:-1], '') if out else str(e)
        return ['error', type(e).__name__, ' '.join(sorted(re.findall(r'\w+', t)))]
    return ['ok', normal(name, r, out), '']


def enter(zone, path, log):
    """Set up one environment in this (forked) process; the folder to use."""
    os.environ['TZ'] = zone
    time.tzset()
    base = os.path.join(_D, 'env')
    os.makedirs(os.path.join(base, 'work', 'o'), exist_ok=True)
    if log == 'debug':
        import logging
        logging.disable(logging.NOTSET)
        logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, 'w'), force=True)
        logging.getLogger('pyDARNio').setLevel(logging.DEBUG)
    if path == 'abs':
        return os.path.join(base, 'work', 'o')
    if path == 'rel':
        os.chdir(os.path.join(base, 'work'))
        return 'o'
    if path == 'dot':
        os.chdir(os.path.join(base, 'work', 'o'))
        return ''
    if path == 'updown':
        os.chdir(os.path.join(base, 'work'))
        return os.path.join('..', 'work', '.', 'o')
    if path == 'link':
        ln = os.path.join(base, 'ln')
        if not os.path.islink(ln):
            os.symlink(os.path.join(base, 'work', 'o'), ln)
        return ln
    if path == 'guest':
        d = os.path.join(base, 'guest')
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        p = d
        while p not in ('/tmp', '/'):
            p = os.path.dirname(p)
            if os.stat(p).st_uid == 0 and p.startswith('/tmp/'):
                os.chmod(p, 0o711)

        def copy(a, b):
            shutil.copyfile(a, b)
            os.chmod(b, 0o444)
        O.shutil = types.SimpleNamespace(copyfile=copy, rmtree=shutil.rmtree)
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        return d
    odd = os.path.join(base, 'sp ace \u00e9\u65e5 record .v0.6 $HOME ${x} %d %(a)s {0} {b} [c] *?~ #')
    os.makedirs(odd, exist_ok=True)
    return odd


def child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            s = json.dumps(f()).encode()
            while s:
                s = s[os.write(w, s):]
            rc = 0
        except BaseException:
            pass
        finally:
            os._exit(rc)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return None if st else json.loads(buf)


def run(case, ctx):
    if case[0] == 'proc':
        return proc(case, ctx)
    name = case[1]

    def one(env):
        def f():
            return attempt(name, _OPS[name], enter(*env))
        return child(f)
    ref = ('UTC', 'abs', 'off')
    base = one(ref)
    if base is None:
        return ctx.bad(name, '%s: the process died' % name)
    if case[2] == 'thorough':
        envs = list(itertools.product(ZONES, PATHS, LOGS))
    else:
        # every zone x every path, logging with the diagonal
        envs = [(z, p, LOGS[(i + j) % 2]) for i, z in enumerate(ZONES) for j, p in enumerate(PATHS)]
    if _GUEST:
        envs.append(GUEST)
    for env in envs:
        if env == ref:
            continue
        got = one(env)
        ctx.ev((name,) + env)
        ctx.state(env)
        ctx.transition((name,) + env)
        ctx.traces += 1
        ctx.sample('%s in %s' % (name, env))
        if got != base:
            ctx.bad('%s in %s' % (name, '/'.join(env)), '%s in %s: %s, in the reference environment %s%s' % (
                name, env, 'the process died' if got is None else ' '.join(got[::2])[:300] if got[0] == 'ok' else got, base[::2] if
                base[0] == 'ok' else base, ' (other data)' if got and got[0] == base[0] == 'ok' else ''))


def proc(case, ctx):
    env = dict(os.environ)
    for k in ('TZ', 'PYTHONHASHSEED', 'LC_ALL', 'LANG'):
        env.pop(k, None)

    def go(extra):
        e = dict(env, PYTHONHASHSEED='0', TZ='UTC', PYTHONWARNINGS='ignore')
        e.update(extra)
        wd = os.path.join(_D, 'procwd')
        os.makedirs(wd, exist_ok=True)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'child', _D], env=e, cwd=wd, capture_output=True)
        return json.loads(r.stdout.decode().strip().split('\n')[-1]) if r.returncode == 0 else {'died': r.stderr.decode()[-500:]}
    base, got = go({}), go(PROCS[case[1]])
    if 'died' in base or 'died' in got:
        return ctx.bad('proc %d' % case[1], 'process with %r ended: %r / %r' % (PROCS[case[1]], base.get('died'), got.get('died')))
    ctx.state(sorted(PROCS[case[1]].items()))
    for n in base:
        ctx.ev((n, case[1]))
        ctx.transition((n, case[1]))
        ctx.traces += 1
        if got[n] != base[n]:
            ctx.bad('%s in process %d' % (n, case[1]), '%s with %r: %r, in the reference process %r' % (
                n, PROCS[case[1]], got[n], base[n]))


if __name__ == '__main__':
    import core
    core.prepare_import()
    d = sys.argv[2]
    o = os.path.join(d, 'procout')
    os.makedirs(o, exist_ok=True)
    so = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    res = {n: attempt(n, f, o) for n, f in O.alphabet(d).items()}
    os.write(so, (json.dumps(res) + '\n').encode())
