"""Runner shared by all checks.

A check module defines
    PID, LEVEL, TECHNIQUE, RULE, ASSUMPTIONS (module constants)
    cases(tier)          -> iterable of JSON-able case descriptions; together
                            they are the bounded space, enumerated completely
    run(case, ctx)       -> explores one slice of the space on the real code
The runner executes every case in forked workers, collects what `ctx` measured
and writes the evidence file.  Nothing is sampled: VERIF_SEED only rotates the
order in which the cases are visited.
"""
import hashlib
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXKEYS = 6_000_000
REPO = os.environ.get('VERIF_REPO', '/repo')


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    """Enough violations in this case."""


class Ctx:
    """What one case measures."""

    def __init__(self, scratch, case):
        self.scratch, self.case = scratch, case
        self.evals = 0
        self.keys = set()
        self.viol = []
        self.states = set()
        self.trans = set()
        self.traces = 0
        self.samples = []
        self.notes = {}
        self._n = 0

    def path(self, name=None):
        self._n += 1
        return os.path.join(self.scratch, name or 'f%d' % self._n)

    def ev(self, key=None, n=1):
        """One execution of the code under test; `key` identifies a
        non-trivial case (None when trivial)."""
        self.evals += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:500])

    def state(self, s):
        self.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).digest())

    def transition(self, t):
        self.trans.add(hashlib.blake2b(repr(t).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def bad(self, key, text, detail=None):
        """Report a violation.  `key` is a stable identifier of the failing
        input / history (used for known findings)."""
        self.viol.append((str(key), str(text)[:2000], detail))
        if len(self.viol) >= 5:
            raise Stop()

    def expect(self, cond, key, text, detail=None):
        if not cond:
            self.bad(key, text, detail)
        return cond


def prepare_import():
    """Import pydarnio from the working tree of /repo, never from stale pycs."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import pydarnio
    root = os.path.realpath(REPO)
    got = os.path.realpath(os.path.dirname(os.path.dirname(pydarnio.__file__)))
    if got != root:
        raise RuntimeError('pydarnio imported from %s, not %s' % (got, root))
    return pydarnio


_STARTED = [0.0, 0.0]


def _alarm(sig, frm):
    """Out of time; a machine that has more to run than processors gives more."""
    start, limit = _STARTED
    try:
        crowd = os.getloadavg()[0] / len(os.sched_getaffinity(0))
    except OSError:
        crowd = 1
    if time.time() - start < limit * min(4, max(1, crowd)):
        signal.setitimer(signal.ITIMER_REAL, limit / 8)
        return
    raise CaseTimeout()


_MOD = None
_SCR = None
_LIMIT = 600


def _winit(modname, scratch, limit):
    global _MOD, _SCR, _LIMIT
    import importlib
    _LIMIT = limit
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    prepare_import()
    _MOD = importlib.import_module(modname)
    _SCR = tempfile.mkdtemp(dir=scratch)
    if hasattr(_MOD, 'worker_init'):
        _MOD.worker_init(_SCR)


def run_case(mod, case, scratch, limit):
    ctx = Ctx(scratch, case)
    signal.signal(signal.SIGALRM, _alarm)
    _STARTED[:] = [time.time(), limit]
    signal.setitimer(signal.ITIMER_REAL, limit)
    # everything the code under test prints goes to the scratch folder
    log = os.open(os.path.join(scratch, '..', 'worker-%d.log' % os.getpid()),
                  os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    so, se = os.dup(1), os.dup(2)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(log, 1)
    os.dup2(log, 2)
    try:
        mod.run(case, ctx)
    except Stop:
        pass
    except CaseTimeout:
        ctx.viol.append(('timeout:%s' % json.dumps(case)[:80],
                         'no result within %d s (endless loop?)' % limit, None))
    except BaseException as err:
        tb = traceback.format_exc()
        ctx.viol.append(('escaped:%s:%s' % (type(err).__name__, json.dumps(case)[:80]),
                         'unexpected %s: %s' % (type(err).__name__, err), tb[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(so, 1)
        os.dup2(se, 2)
        for fd in (so, se, log):
            os.close(fd)
        for n in os.listdir(scratch):
            p = os.path.join(scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
    return ctx


def _work(case):
    t = time.time()
    ctx = run_case(_MOD, case, _SCR, _LIMIT)
    return (case, ctx.evals, ctx.keys, ctx.viol, ctx.states, ctx.trans, ctx.traces,
            ctx.samples, ctx.notes, time.time() - t)


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                out[key.split('=', 1)[1]] = what
    return out


def main(modname, argv):
    import importlib
    import concurrent.futures as cf
    import multiprocessing as mp
    sys.path.insert(0, os.path.join(VERIF, 'mc'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vmc-')
    os.environ['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    os.environ['TZ'] = 'VST3:30VDT,M3.2.0,M11.1.0'     # nothing may depend on local time
    time.tzset()
    try:
        return _main(modname, argv, tier, seed, t0, scratch, importlib, cf, mp)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(modname, argv, tier, seed, t0, scratch, importlib, cf, mp):
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    pid_guess = modname.upper()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        prepare_import()
        mod = importlib.import_module(modname)
    except BaseException as err:
        rp = os.path.join(rdir, '%s-import.json' % pid_guess)
        json.dump({'property': pid_guess, 'case': None, 'text': 'import failed: %r' % err,
                   'detail': traceback.format_exc()}, open(rp, 'w'))
        print('import of the code under test failed: %r' % err)
        print('VIOLATION property=%s replay=%s' % (pid_guess, rp))
        return 1
    pid = mod.PID
    known = known_findings(pid)
    limit = getattr(mod, 'CASE_LIMIT', {'quick': 400, 'thorough': 3000})[tier]

    if '--replay' in argv:
        rp = argv[argv.index('--replay') + 1]
        case = json.load(open(rp))['case']
        sd = tempfile.mkdtemp(dir=scratch)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(sd)
        ctx = run_case(mod, case, sd, limit)
        for key, text, detail in ctx.viol:
            print('%s: %s\n%s' % (key, text, detail or ''))
        print('replay: %d violations' % len(ctx.viol))
        return 1 if ctx.viol else 0

    cases = list(mod.cases(tier))
    n = len(cases)
    rot = seed % n if n else 0
    cases = cases[rot:] + cases[:rot]
    budget = {'quick': 780, 'thorough': 6 * 3600}[tier]
    deadline = t0 + budget
    ev = 0
    keys, states, trans, traces, samples, notes = set(), set(), set(), 0, [], {}
    viols = []
    done = 0
    capped = False
    workers = int(os.environ.get('VERIF_JOBS', '8'))
    ex = cf.ProcessPoolExecutor(workers, mp_context=mp.get_context('fork'),
                                initializer=_winit, initargs=(modname, scratch, limit))
    died = None
    hung = False
    try:
        futs = {ex.submit(_work, c): c for c in cases}
        pending = set(futs)
        while pending:
            fin, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in fin:
                try:
                    case, e, k, v, s, t, tr, sm, nt, wall = f.result()
                except BaseException as err:
                    died = (futs[f], repr(err))
                    continue
                done += 1
                ev += e
                for acc, new in ((keys, k), (states, s), (trans, t)):
                    if len(acc) < MAXKEYS:
                        acc |= new
                    elif new:
                        notes['distinct_counts_are_lower_bounds'] = 1
                if any(x[0].startswith('timeout:') for x in v):
                    hung = True
                traces += tr
                if len(samples) < 6:
                    samples += sm[:1]
                for a, b in nt.items():
                    notes[a] = notes.get(a, 0) + b
                for key, text, detail in v:
                    viols.append((case, key, text, detail))
            if len([1 for x in viols if x[1] not in known]) >= 40 or died or hung:
                for f in pending:
                    f.cancel()
                break
            if time.time() > deadline:
                capped = True
                for f in pending:
                    f.cancel()
                break
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        # every result is in (or no longer wanted): no worker may outlive this process
        for p in procs:
            try:
                p.kill()
                p.join(5)
            except Exception:
                pass
    if died:
        viols.append((died[0], 'died', 'a worker died while exploring this case: %s' % died[1], None))

    seen_known = {}
    real = []
    for v in viols:
        if v[1] in known:
            seen_known[v[1]] = known[v[1]]
        else:
            real.append(v)
    for key, what in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    shown, rc = 0, 0
    seen = set()
    for case, key, text, detail in real:
        rc = 1
        if key in seen or shown >= 5:
            continue
        seen.add(key)
        shown += 1
        rp = os.path.join(rdir, '%s-%d.json' % (pid, shown))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': case, 'key': key, 'text': text,
                       'detail': detail, 'rerun': '/opt/venv/bin/python %s/mc/run.py %s --replay %s'
                       % (VERIF, pid, rp)}, f, indent=1, default=str)
        print('[%s] %s' % (key, text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    cov = {
        'rule': mod.RULE, 'samples': samples or ['(none)'],
        'evaluations': ev, 'distinct_nontrivial': len(keys),
        'cases_total': n, 'cases_done': done,
        'exhaustive': bool(done == n and not rc and not capped),
    }
    if mod.LEVEL == 'model_checking' or traces:
        cov['states'] = len(states)
        cov['transitions'] = len(trans)
        cov['traces_validated_against_impl'] = traces
    cov.update({k: v for k, v in notes.items()})
    evd = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
           'coverage': cov, 'assumptions': mod.ASSUMPTIONS,
           'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(evd, f, indent=1)
    if capped and rc == 0:
        print('note: time budget reached after %d of %d cases' % (done, n))
    if mod.LEVEL == 'model_checking':
        print('states=%d transitions=%d traces=%d' % (len(states), len(trans), traces))
    print('%s %s: cases=%d/%d evaluations=%d distinct=%d violations=%d wall=%.1fs'
          % (pid, tier, done, n, ev, len(keys), len(real), time.time() - t0))
    return rc
