"""C10: site/array restructuring in memory."""
import bmodel as M
import bfile as bf
import geospace
from snap import snap

PID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded record mixes (all combinations of sequences, beams and '
             'blanked samples per record, pulse-phase-offset forms, shapes) through the real readers\' and writers\' '
             'conversions, compared cell by cell with an independent model of the two structures')
RULE = ('for each mix: reader and writer conversions in both directions equal the reference model (every cell, padding '
        'included) and conversion chains back and forth change nothing; non-trivial when a conversion ran')
ASSUMPTIONS = ['file-wide fields are equal in all records; shapes other than sequences, beams and blanked samples do '
               'not vary from record to record', 'record times are whole milliseconds and distinct',
               'at most 3 sequences, 3 beams, 2 blanked samples and (mostly) 3 records']

cases = geospace.space


def run(case, ctx):
    v, ft = case[1:3]
    for n, (key, recs) in enumerate(geospace.expand(case)):
        try:
            # the chain through the writers for every third mix of the quick tier
            one(ctx, v, ft, key, recs, case[-1] != 'quick' or n % 3 == 0)
        except Exception as e:
            import traceback
            ctx.bad('%s:%s:%s' % (v, ft, key), '%s %s %s: raised %s: %s' % (
                v, ft, key, type(e).__name__, str(e)[-300:]), traceback.format_exc()[-1500:])


def same_arrays(v, ft, ref, got):
    d = M.diff_arrays(v, ft, ref, got)
    return d[0] if d else None


def one(ctx, v, ft, key, recs, chain):
    import pydarnio as P
    k = '%s:%s:%s' % (v, ft, key)
    ref = M.site_to_array(v, ft, recs)
    arr = M.to_array_data(v, ft, recs)
    ctx.sample(k)

    def check(what, d):
        ctx.ev(k + what)
        if d:
            ctx.bad(k + ':' + what, '%s: %s: %s' % (k, what, d))
            raise Abort()
    site, array = ctx.path(), ctx.path()
    bf.write_site(site, recs)
    bf.write_array(array, arr)
    try:
        r = P.BorealisRead(site, ft, 'site')
        before = snap(r.records)
        A = r.arrays
        check('arrays of a site reader', same_arrays(v, ft, ref, A))
        check('types of the arrays of a site reader', types(v, ft, arr, A))
        check('records of the site reader after asking for arrays',
              None if snap(r.records) == before else 'changed')
        check('arrays asked for again', None if snap(r.arrays) == snap(A) else 'differ from the first time')
        q = P.BorealisRead(array, ft, 'array')
        before = snap(q.arrays)
        R = q.records
        check('records of an array reader', diff_site(v, ft, recs, R))
        check('arrays of the array reader after asking for records',
              None if snap(q.arrays) == before else 'changed')
        check('records asked for again', None if snap(q.records) == snap(R) else 'differ from the first time')
        if not chain:
            return
        # the same through writers, going back and forth
        sr, sa = snap(R), snap(A)
        w = P.BorealisWrite(ctx.path(), R, ft, 'site')
        A2 = w.arrays
        check('arrays of a site writer (given records converted from arrays)', same_arrays(v, ft, ref, A2))
        check('records given to the writer', None if snap(R) == sr else 'changed')
        f2 = ctx.path()
        w = P.BorealisWrite(f2, A, ft, 'array')
        R2 = w.records
        check('records of an array writer (given arrays converted from records)', diff_site(v, ft, recs, R2))
        check('arrays given to the writer', None if snap(A) == sa else 'changed')
        R3 = P.BorealisRead(f2, ft, 'array').records
        check('records of the arrays written and read', diff_site(v, ft, recs, R3))
        A3 = P.BorealisWrite(ctx.path(), R3, ft, 'site').arrays
        check('third conversion', same_arrays(v, ft, ref, A3) or (None if sorted(A3) == sorted(A) and all(
            snap(A3[n]) == snap(A[n]) for n in A) else 'differs from the first conversion'))
        R4 = P.BorealisWrite(ctx.path(), A3, ft, 'array').records
        check('fourth conversion', diff_site(v, ft, recs, R4))
    except Abort:
        pass


class Abort(Exception):
    pass


def diff_site(v, ft, want, got):
    d = M.diff_records(v, ft, want, got)
    if d:
        return d[0]
    for n in want:
        for f in want[n]:
            t = bf.type_diff(want[n][f], got[n][f])
            if t:
                return '%s.%s: %s' % (n, f, t)
    return None


def types(v, ft, arr, got):
    for f in arr:
        if f in ('num_beams', 'num_blanked_samples') or f not in got:
            continue
        t = bf.type_diff(arr[f], got[f])
        if t and not (M.is_text(arr[f]) and M.is_text(got[f])):
            return '%s: %s' % (f, t)
    return None
