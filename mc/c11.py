"""C11: restructuring files."""
import itertools
import os
import bmodel as M
import bfile as bf
import geospace
from c10 import diff_site, same_arrays, types
from snap import snap

PID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded record mixes, versions, types, compressions and '
             'refusable requests through the real file restructuring, compared with the in-memory conversion and an '
             'independent model')
RULE = ('for each mix: the restructured file equals the reference model and the in-memory conversion, restructuring '
        'back gives the original data, the input stays byte-identical; every refusable request is refused and changes '
        'nothing; non-trivial when a file was restructured or a request refused')
ASSUMPTIONS = [
    'file-wide fields are equal in all records; shapes other than sequences, beams and blanked samples do not vary '
    'from record to record', 'record times are whole milliseconds and distinct',
    'at most 3 sequences, 3 beams, 2 blanked samples and (mostly) 3 records', 'the output file does not exist before']
COMPR = [None, 'gzip', 'lzf']


def cases(tier):
    yield from geospace.space(tier)
    for v in M.VERSIONS:
        for ft in M.FILETYPES:
            yield ['refuse', v, ft]
            yield ['same', v, ft]
            if v not in ('v0.2', 'v0.3') or tier == 'thorough':
                yield ['text', v, ft, tier]


def run(case, ctx):
    fam, v, ft = case[:3]
    if fam == 'refuse':
        return refuse(ctx, v, ft)
    if fam == 'same':
        return same(ctx, v, ft)
    if fam == 'text':
        at, ds = M.site_fields(v, ft)
        for f in [f for f, t in at.items() if t is str and f != 'borealis_git_hash']:
            for x in bf.TEXTS if case[-1] != 'quick' else bf.TEXTS[::2]:
                recs = M.make_records(v, ft, geospace.geos([4, 22]))
                for i, r in enumerate(recs.values()):
                    r[f] = x if f in M.shared(v, ft) else x[i:]
                guard(ctx, v, ft, '%s=%r' % (f, x[:9] + str(len(x))), recs, None, True)
        return
    for n, (key, recs) in enumerate(geospace.expand(case)):
        guard(ctx, v, ft, key, recs, COMPR[n % 3], case[-1] != 'quick' or n % 5 == 0)


def guard(ctx, v, ft, key, recs, c, full):
    try:
        one(ctx, v, ft, '%s c=%s' % (key, c), recs, c, full)
    except Abort:
        pass
    except Exception as e:
        import traceback
        ctx.bad('%s:%s:%s' % (v, ft, key), '%s %s %s: raised %s: %s' % (
            v, ft, key, type(e).__name__, str(e)[-400:]), traceback.format_exc()[-1500:])


class Abort(Exception):
    pass


def one(ctx, v, ft, key, recs, c, full):
    import pydarnio as P
    k = '%s:%s:%s' % (v, ft, key)
    ref = M.site_to_array(v, ft, recs)
    arr = M.to_array_data(v, ft, recs)
    ctx.sample(k)

    def check(what, d):
        ctx.ev(k + what)
        if d:
            ctx.bad(k + ':' + what, '%s: %s: %s' % (k, what, d))
            raise Abort()
    site, array, o1, o2, b1, b2 = (ctx.path() for _ in range(6))
    legacy = len(key) % 5 == 0
    bf.write_site(site, recs, c, legacy)
    bf.write_array(array, arr, c, legacy)
    hs, ha = bf.digest(site), bf.digest(array)
    kw = {} if c is None else {'hdf5_compression': c}
    P.BorealisRestructure(site, o1, ft, 'array', **kw)
    P.BorealisRestructure(array, o2, ft, 'site', **kw)
    check('input site file', None if bf.digest(site) == hs else 'changed')
    check('input array file', None if bf.digest(array) == ha else 'changed')
    A = P.BorealisRead(o1, ft, 'array').arrays
    R = P.BorealisRead(o2, ft, 'site').records
    check('restructured to arrays', same_arrays(v, ft, ref, A) or types(v, ft, arr, A))
    check('restructured to records', diff_site(v, ft, recs, R))
    check('array file as stored', same_arrays(v, ft, ref, bf.read_array(o1)))
    check('site file as stored', diff_site(v, ft, recs, bf.read_site(o2)))
    if not full:
        return
    # field for field as in memory
    A0 = P.BorealisRead(site, ft, 'site').arrays
    R0 = P.BorealisRead(array, ft, 'array').records
    check('in-memory arrays equal the file', eq_fields(A0, A))
    check('in-memory records equal the file', None if sorted(R0) == sorted(R) and all(
        eq_fields(R0[n], R[n]) is None for n in R0) else 'they differ')
    # and back
    h1, h2 = bf.digest(o1), bf.digest(o2)
    P.BorealisRestructure(o1, b1, ft, 'site', **kw)
    P.BorealisRestructure(o2, b2, ft, 'array', **kw)
    check('there and back to records', diff_site(v, ft, recs, P.BorealisRead(b1, ft).records))
    A4 = P.BorealisRead(b2, ft).arrays
    check('there and back to arrays', same_arrays(v, ft, ref, A4) or eq_fields(A, A4))
    check('intermediate files', None if (h1, h2) == (bf.digest(o1), bf.digest(o2)) else 'changed')


def eq_fields(a, b, flat=()):
    import numpy as np
    if set(a) != set(b):
        return 'fields %s' % sorted(set(a) ^ set(b))
    for f in a:
        x, y = a[f], b[f]
        if M.is_text(x) and M.is_text(y):
            if M.text(x) != M.text(y):
                return '%s: text differs' % f
            continue
        if f in flat:
            x, y = np.ravel(x), np.ravel(y)
        d = None if snap(x) == snap(y) else bf.value_same(x, y)
        if d:
            return '%s: %s' % (f, d)
    return None


def same(ctx, v, ft):
    """The file already has the requested structure."""
    import pydarnio as P
    for gi, gs in enumerate(bf.geo_sets()):
        recs = M.make_records(v, ft, gs)
        for st in ('site', 'array'):
            src, out = ctx.path(), ctx.path()
            if st == 'site':
                bf.write_site(src, recs)
            else:
                bf.write_array(src, M.to_array_data(v, ft, recs))
            h = bf.digest(src)
            k = 'same %s %s %s %d' % (v, ft, st, gi)
            ctx.ev(k)
            try:
                P.BorealisRestructure(src, out, ft, st)
                if st == 'site':
                    d = bf.same_site(recs, P.BorealisRead(out, ft, 'site').records)
                else:
                    d = bf.same_fields(M.to_array_data(v, ft, recs), P.BorealisRead(out, ft, 'array').arrays)
            except Exception as e:
                d = 'raised %s: %s' % (type(e).__name__, e)
            if d:
                ctx.bad(k, '%s: %s' % (k, d))
            if bf.digest(src) != h:
                ctx.bad(k, k + ': the input was changed')


def refuse(ctx, v, ft):
    import pydarnio as P
    from pydarnio import borealis_exceptions as be
    recs = M.make_records(v, ft, bf.geo_sets()[3])
    d = ctx.path('folder')
    if not os.path.isdir(d):
        os.mkdir(d)
    os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
    cwd = os.getcwd()
    for st, other in (('site', 'array'), ('array', 'site')):
        src = os.path.join(d, 'src.hdf5')
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.islink(p) or os.path.isfile(p):
                os.unlink(p)
        if st == 'site':
            bf.write_site(src, recs)
        else:
            bf.write_array(src, M.to_array_data(v, ft, recs))
        link = os.path.join(d, 'link.hdf5')
        os.symlink(src, link)
        out = os.path.join(d, 'out.hdf5')
        reqs = []
        for t in ('rawrf', 'bogus', '', None, 'RAWACF', 'output_ptrs_iq'):
            for s in ('site', 'array'):
                reqs.append(('type %r to %s' % (t, s), src, out, t, s, (be.BorealisFileTypeError,)))
        for s in ('bogus', '', None, 'Site', 'ARRAY'):
            reqs.append(('structure %r' % s, src, out, ft, s, (be.BorealisStructureError,)))
        for s in ('site', 'array'):
            for nm, a, b in (('same path', src, src), ('dot path', src, os.path.join(d, '.', 'src.hdf5')),
                             ('double slash', src, d + '//src.hdf5'), ('symlink output', src, link),
                             ('symlink input', link, src), ('parent path', src, os.path.join(d, 'sub', '..', 'src.hdf5')),
                             ('relative output', src, 'src.hdf5'), ('relative input', 'src.hdf5', src)):
                reqs.append(('%s to %s' % (nm, s), a, b, ft, s, (be.ConvertFileOverWriteError,)))
            reqs.append(('missing input to %s' % s, os.path.join(d, 'none.hdf5'), out, ft, s, (Exception,)))
        for dest in ('absent', 'existing'):
            for nm, a, b, t, s, errs in reqs:
                if dest == 'existing':
                    open(out, 'wb').write(b'previous contents')
                elif os.path.lexists(out):
                    os.unlink(out)
                h = bf.digest(src)
                files = sorted(os.listdir(d))
                k = 'refuse %s %s %s %s %s' % (v, ft, st, nm, dest)
                ctx.ev(k)
                os.chdir(d)
                err = None
                try:
                    P.BorealisRestructure(a, b, t, s)
                except Exception as e:
                    err = e
                finally:
                    os.chdir(cwd)
                if err is None:
                    ctx.bad(k, k + ': was not refused')
                elif not isinstance(err, errs):
                    ctx.bad(k, '%s: raised %s: %s' % (k, type(err).__name__, str(err)[:200]))
                if bf.digest(src) != h:
                    ctx.bad(k + ':input', k + ': the input was changed')
                if sorted(os.listdir(d)) != files:
                    ctx.bad(k + ':created', '%s: created %s' % (k, sorted(set(os.listdir(d)) - set(files))))
                if dest == 'existing' and open(out, 'rb').read() != b'previous contents':
                    ctx.bad(k + ':output', k + ': the existing output was changed')
