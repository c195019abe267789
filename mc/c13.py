"""C13: Borealis structure and version are detected correctly."""
import inspect
import itertools
import os
import numpy as np
import bmodel as M
import bfile as bf
import c12
from snap import snap

PID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of (contents version x file type x structure) x (spelling of the '
             'software tag) x (structure argument x file type argument) x operation on the real code, judged by an '
             'independent table model, with the whole directory compared before and after')
RULE = ('every combination is executed once as read, write and restructure; the verdict, structure, version and data must '
        'be those of the model and no file other than a successful destination may appear or change; non-trivial when the '
        'tag is not the plain version, or any argument is left out or wrong')
ASSUMPTIONS = ['the version of site data is that of its first record in name order',
               'with the structure left out any documented Borealis error counts as refusal of bad data',
               'the tables in mc/bmodel.py state the formats']

SUFFIX = ['', '.0', '.1', '.10', '.1-61-gc13ab34', '-61-gdeadbee', '-dirty', '.2.3', '.1-0.5-x', '-v0.2', '.0-v0.3.1', '.']
UNSUPPORTED = ['v0.0', 'v0.1', 'v0.8', 'v0.9', 'v0.10', 'v0.20', 'v1.0', 'v1.6', 'v0', 'v0.', 'v', '0.6', 'V0.6', 'v0.60',
               'v00.6', 'v0.6x', 'v0.6 ', ' v0.6', 'v0-6', 'v0_6', '', '-', '.', '..', 'random', 'v6.0', 'v0.\u0666']
BADTYPES = ['rawACF', '', None, 'fitacf', 'site', 'output_ptrs', 'rawacf ', 'iqdat', 5]
BADSTRUCT = ['sites', 'Array', '', 'SITE', 'records', 5, True]


def cases(tier):
    for v in M.VERSIONS:
        for ft in M.ALLTYPES:
            for st in ('site', 'array'):
                if st == 'array' and ft == 'rawrf':
                    continue
                yield ['spell', v, ft, st]
                yield ['args', v, ft, st]
                if st == 'site':
                    yield ['mixed', v, ft, st]
    for ft in M.ALLTYPES:
        yield ['odd', 'v0.6', ft, 'site']
        if ft != 'rawrf':
            yield ['odd', 'v0.5', ft, 'array']
    if tier == 'thorough':
        for v, w in itertools.product(M.VERSIONS, M.VERSIONS):
            for ft in M.ALLTYPES:
                yield ['cross', v, ft, w]


def base(v, ft, st, tag=None, n=2):
    recs = M.make_records(v, ft, [M.Geo(2, 1, 1), M.Geo(1, 2, 2), M.Geo(2, 2, 1)][:n])
    if tag is not None:
        for r in recs.values():
            r['borealis_git_hash'] = tag
    return recs if st == 'site' else M.to_array_data(v, ft, recs)


def documented():
    from pydarnio import borealis_exceptions as be
    return tuple(c for _, c in inspect.getmembers(be, inspect.isclass) if issubclass(c, Exception))


class Env:
    """A directory holding exactly one data file."""

    def __init__(self, ctx, v, ft, st):
        self.ctx, self.v, self.ft, self.st = ctx, v, ft, st
        self.dir = ctx.path('d')
        os.makedirs(self.dir, exist_ok=True)
        self.fn = os.path.join(self.dir, 'in.hdf5')
        self.out = os.path.join(self.dir, 'out.hdf5')
        self.wd = ctx.path('cwd')
        os.makedirs(self.wd, exist_ok=True)
        os.chdir(self.wd)

    def put(self, d):
        for n in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, n))
        (bf.write_site if self.st == 'site' else bf.write_array)(self.fn, d)
        self.h = bf.digest(self.fn)

    def bad(self, k, text):
        key = '%s:%s:%s %s' % (self.v, self.ft, self.st, k)
        self.ctx.bad(key, '%s: %s' % (key, text))

    def clean(self, k, expect_out):
        if os.path.exists(self.fn) and bf.digest(self.fn) != self.h:
            self.bad(k, 'the input file was changed')
        have = set(os.listdir(self.dir)) - {'in.hdf5'}
        if have - {'out.hdf5'} or (not expect_out and have):
            self.bad(k, 'created %r' % (have,))
        if os.listdir(self.wd):
            self.bad(k, 'created %r in the working directory' % (os.listdir(self.wd),))
        for n in have:
            os.unlink(os.path.join(self.dir, n))

    def call(self, f):
        try:
            return f(), None
        except Exception as e:
            return None, e

    # `want`: ('ok', version) or ('err', tuple of exception names)
    def judge(self, k, want, err):
        if want[0] == 'ok':
            if err is not None:
                self.bad(k, 'refused: %s: %s' % (type(err).__name__, str(err)[-300:]))
                return False
            return True
        if err is None:
            self.bad(k, 'accepted, expected %s' % (want[1],))
        elif not isinstance(err, documented()) or (want[1] != 'any' and type(err).__name__ not in want[1]):
            self.bad(k, 'raised %s: %s; expected %s' % (type(err).__name__, str(err)[-300:], want[1]))
        return False

    def expectation(self, d, ft, st, named):
        """verdict for data `d` (structure self.st) handled as ft/st"""
        if ft not in M.ALLTYPES:
            if named and st not in ('site', 'array'):
                return ('err', ('BorealisFileTypeError', 'BorealisStructureError'))
            return ('err', ('BorealisFileTypeError',))
        if named and st not in ('site', 'array'):
            return ('err', ('BorealisStructureError',))
        if named and st != self.st:
            return ('err', 'any')
        w = c12.verdict(ft, self.st, d)
        if w is None:
            return ('ok', c12.label(d, self.st))
        if w[0] == 'version':
            return ('err', ('BorealisVersionError',))
        if w[0] == 'structure':
            return ('err', ('BorealisStructureError',))
        return ('err', 'any')

    def read(self, key, d, ft, arg, nontrivial=True):
        import pydarnio as P
        named = arg is not None
        k = 'read %s as %r %r' % (key, ft, arg if named else '-')
        self.ctx.ev((self.v, self.ft, self.st, k) if nontrivial else None)
        self.ctx.sample(k)
        r, err = self.call(lambda: P.BorealisRead(self.fn, ft, arg) if named else P.BorealisRead(self.fn, ft))
        self.clean(k, False)
        want = self.expectation(d, ft, arg, named)
        if not self.judge(k, want, err):
            return
        if r.borealis_file_structure != self.st:
            self.bad(k, 'structure reported as %r' % (r.borealis_file_structure,))
        if r.software_version != want[1]:
            self.bad(k, 'version reported as %r' % (r.software_version,))
        x = bf.same_site(d, r.records) if self.st == 'site' else bf.same_fields(d, r.arrays)
        if x:
            self.bad(k, 'data differ: %s' % (x,))
        self.clean(k + ' afterwards', False)

    def write(self, key, d, ft, arg, nontrivial=True):
        import pydarnio as P
        named = arg is not None
        k = 'write %s as %r %r' % (key, ft, arg if named else '-')
        self.ctx.ev((self.v, self.ft, self.st, k) if nontrivial else None)
        before = snap(d)
        w, err = self.call(lambda: P.BorealisWrite(self.out, d, ft, arg) if named else P.BorealisWrite(self.out, d, ft))
        if snap(d) != before:
            self.bad(k, 'the data handed in were changed')
        want = self.expectation(d, ft, arg, named)
        got = None
        if want[0] == 'ok' and err is None and os.path.exists(self.out):
            got = (bf.read_site if self.st == 'site' else bf.read_array)(self.out)
        self.clean(k, want[0] == 'ok')
        if not self.judge(k, want, err):
            return
        if w.borealis_file_structure != self.st:
            self.bad(k, 'structure reported as %r' % (w.borealis_file_structure,))
        if w.software_version != want[1]:
            self.bad(k, 'version reported as %r' % (w.software_version,))
        x = 'nothing written' if got is None else bf.same_site(d, got) if self.st == 'site' else bf.same_fields(d, got)
        if x:
            self.bad(k, 'file differs: %s' % (x,))

    def restructure(self, key, d, ft, to, nontrivial=True):
        import pydarnio as P
        k = 'restructure %s as %r to %r' % (key, ft, to)
        self.ctx.ev((self.v, self.ft, self.st, k) if nontrivial else None)
        r, err = self.call(lambda: P.BorealisRestructure(self.fn, self.out, ft, to))
        if ft not in M.FILETYPES or to not in ('site', 'array'):
            want = ('err', (('BorealisFileTypeError',) if ft not in M.FILETYPES else ()) +
                    (('BorealisStructureError',) if to not in ('site', 'array') else ()))
        else:
            want = self.expectation(d, ft, self.st, True)
        if want == ('err', 'any') or (want[0] == 'ok' and ft != self.ft):
            # restructuring looks only for the fields it needs: data of another type or with foreign fields
            # may or may not be refused, but the source stays as it was
            if err is not None and not isinstance(err, documented()):
                self.bad(k, 'raised %s: %s' % (type(err).__name__, str(err)[-300:]))
            self.clean(k, True)
            return
        got = None
        if want[0] == 'ok' and err is None and os.path.exists(self.out):
            got = (bf.read_site if to == 'site' else bf.read_array)(self.out)
        self.clean(k, want[0] == 'ok')
        if not self.judge(k, want, err):
            return
        if r.software_version != want[1]:
            self.bad(k, 'version reported as %r' % (r.software_version,))
        if to == self.st:
            x = bf.same_site(d, got) if to == 'site' else bf.same_fields(d, got)
        elif to == 'array':
            x = M.diff_arrays(want[1], ft, M.site_to_array(want[1], ft, d), got)
        else:
            x = None if len(got) == len(d['num_sequences']) else 'has %d records' % len(got)
        if x:
            self.bad(k, 'output differs: %s' % (x,))


def run(case, ctx):
    fam, v, ft, st = case[:4]
    if fam == 'cross':
        return cross(ctx, v, ft, case[3])
    e = Env(ctx, v, ft, st)
    other = 'array' if st == 'site' else 'site'
    if fam == 'spell':
        for tag in [v + s for s in SUFFIX] + UNSUPPORTED + [u + s for u in ('v0.1', 'v0.8', 'v1.0', 'v0.10') for s in SUFFIX[1:]]:
            d = base(v, ft, st, tag)
            e.put(d)
            plain = tag == v
            for arg in (st, None):
                e.read('tag %r' % tag, d, ft, arg, not plain)
                e.write('tag %r' % tag, d, ft, arg, not plain)
            e.restructure('tag %r' % tag, d, ft, other, not plain)
            e.restructure('tag %r' % tag, d, ft, st, not plain)
            if not plain and tag.startswith(v):
                e.read('tag %r' % tag, d, ft, other)
                e.write('tag %r' % tag, d, ft, other)
    elif fam == 'args':
        d = base(v, ft, st)
        e.put(d)
        for f in list(M.ALLTYPES) + BADTYPES:
            for a in [None, st, other] + BADSTRUCT:
                e.read('', d, f, a, (f, a) != (ft, st))
                e.write('', d, f, a, (f, a) != (ft, st))
            for to in ['site', 'array', None] + BADSTRUCT:
                e.restructure('', d, f, to, (f, to) != (ft, other))
    elif fam == 'mixed':
        # records carrying different tags, given in every order
        tags = [v + '.1', v + '-7-gabc', v + '.12.0-dirty']
        others = [w for w in M.VERSIONS if w != v][:2] + ['v0.9', 'v1.0']
        for ts in list(itertools.permutations(tags)) + [(v + '.1', w, v) for w in others] + [(w, v, v + '.1') for w in others]:
            full = base(v, ft, st, None, 3)
            for n, t in zip(sorted(full), ts):
                full[n]['borealis_git_hash'] = t
            first = c12.label(full, 'site')
            for order in itertools.permutations(sorted(full)):
                d = type(full)((n, full[n]) for n in order)
                e.put(d)
                k = 'tags %r in order %r' % (ts, [sorted(full).index(n) for n in order])
                for arg in (None, st):
                    e.read(k, d, ft, arg)
                    e.write(k, d, ft, arg)
    elif fam == 'odd':
        odd(e, v, ft, st)


def odd(e, v, ft, st):
    """Files and data of which no version can be told; files that are not there."""
    import h5py
    import pydarnio as P
    doc = documented()

    def make(kind):
        for n in os.listdir(e.dir):
            os.unlink(os.path.join(e.dir, n))
        if kind == 'absent':
            e.h = None
            return
        if kind == 'empty':
            open(e.fn, 'wb').close()
        elif kind == 'junk':
            open(e.fn, 'wb').write(b'\x89HDF\r\n\x1a\n' + b'junk' * 100)
        elif kind == 'text':
            open(e.fn, 'wb').write(b'not hdf5 at all\n')
        elif kind == 'no contents':
            h5py.File(e.fn, 'w').close()
        elif kind == 'no tag':
            d = base(v, ft, st)
            for r in (d.values() if st == 'site' else [d]):
                del r['borealis_git_hash']
            (bf.write_site if st == 'site' else bf.write_array)(e.fn, d)
        elif kind == 'empty group':
            with h5py.File(e.fn, 'w') as f:
                f.create_group('1600000000000')
        elif kind == 'group without tag first':
            bf.write_site(e.fn, base(v, ft, 'site'))
            with h5py.File(e.fn, 'r+') as f:
                f.create_group('0')
        elif kind == 'number as tag':
            d = base(v, ft, st)
            for r in (d.values() if st == 'site' else [d]):
                r['borealis_git_hash'] = np.float32(0.6)
            (bf.write_site if st == 'site' else bf.write_array)(e.fn, d)
        e.h = bf.digest(e.fn)

    for kind in ('absent', 'empty', 'junk', 'text', 'no contents', 'no tag', 'empty group', 'group without tag first',
                 'number as tag'):
        make(kind)
        io = kind in ('absent', 'empty', 'junk', 'text')
        ops = [('read %r' % (a,), lambda a=a: P.BorealisRead(e.fn, ft, *a)) for a in ((), ('site',), ('array',))]
        if ft in M.FILETYPES:
            ops += [('restructure to %s' % a, lambda a=a: P.BorealisRestructure(e.fn, e.out, ft, a)) for a in ('site', 'array')]
        if ft in ('rawacf', 'bfiq'):
            ops += [('convert %r' % (a,), lambda a=a: P.BorealisConvert(e.fn, ft, e.out, 0, *a)) for a in ((), ('site',), ('array',))]
        for name, f in ops:
            k = '%s: %s' % (kind, name)
            e.ctx.ev((e.v, e.ft, e.st, k))
            r, err = e.call(f)
            if kind == 'absent' and os.path.exists(e.fn):
                e.bad(k, 'created the input file')
            if err is None:
                e.bad(k, 'accepted')
            elif io and not isinstance(err, (OSError,) + doc):
                e.bad(k, 'raised %s: %s' % (type(err).__name__, str(err)[:200]))
            elif not io and not isinstance(err, doc):
                e.bad(k, 'raised %s: %s' % (type(err).__name__, str(err)[:200]))
            e.clean(k, False)


def cross(ctx, v, ft, w):
    """Contents of version v labelled as version w with every suffix."""
    for st in ('site', 'array'):
        if st == 'array' and ft == 'rawrf':
            continue
        e = Env(ctx, v, ft, st)
        for s in SUFFIX:
            d = base(v, ft, st, w + s)
            e.put(d)
            for a in (None, 'site', 'array'):
                for f in M.ALLTYPES:
                    if st == 'array' and f == 'rawrf' or (f == 'rawrf' and a == 'array'):
                        continue
                    e.read('labelled %s' % (w + s), d, f, a)
                    e.write('labelled %s' % (w + s), d, f, a)
