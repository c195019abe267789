"""C04: writers are repeatable and never alter what they are given."""
import collections
import itertools
import os
import zlib
import dmapcodec as dc
import dspace
import sdmodel
from snap import snap

PID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = ('model checking: exhaustive enumeration of all operation sequences on one writer object up to a depth; '
             'a small state model (records held, file name held, file contents) is replayed step by step on the real '
             'writers')
RULE = ('every sequence of writer calls up to the depth, from every construction, is executed on the real class and '
        'every call\'s outcome (error / exact bytes in the exact place) is compared with the model; each sequence is a '
        'non-trivial case')
ASSUMPTIONS = ['after a write without a name the file used is the one named last or at construction',
               'after a failed write_dmap_stream(bad records), a write without records either raises or writes the '
               'records held before']

STREAMOPS = ['stream', 'stream:A', 'stream:B', 'stream:D', 'stream:bad', 'stream:bad2']
FILEOPS = ['dmap', 'dmap:1', 'dmap:2', 'dmap:missing']


def recsets():
    """name -> (reference records or None when they cannot be written, given)."""
    a = [dspace.record(i) for i in (0, 2)]
    b = [dspace.record(i) for i in (5,)]
    out = {'A': ([x[0] for x in a], lambda: [dict(x[1]) for x in a]),
           'B': ([x[0] for x in b], lambda: [dict(x[1]) for x in b]),
           'D': ([x[0] for x in a + b], lambda: dspace.to_dmap([x[0] for x in a + b])),
           'none': (None, lambda: []),
           # cannot be converted (first record fine) / cannot be encoded (second record bad)
           'bad': (None, lambda: [dict(b[0][1]), {'x': None}]),
           'bad2': (None, lambda: [dict(a[0][1]), dict(b[0][1], nul='a\0b')])}
    for t in ('rawacf', 'grid'):
        r = [sdmodel.make_record(t, None, k) for k in range(2)]
        out[t] = (r, lambda r=r: [sdmodel.to_dict(x) for x in r])
    r = [sdmodel.make_record('rawacf', None, 0), sdmodel.make_record('rawacf', None, 1, drop=['stid'])]
    out['rawbad'] = (r, lambda r=r: [sdmodel.to_dict(x) for x in r])
    return out


OKFOR = {'rawacf': 'rawacf', 'grid': 'grid'}
SDOPS = ['rawacf', 'rawacf:1', 'grid:2', 'fitacf:1', 'stream', 'dmap:1', 'dmap', 'stream:raw2', 'stream:bad2',
         'iqdat:2', 'rawacf:missing']


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for init in ('A', 'B', 'D', 'none', 'bad2'):
        for fn in (0, 1):
            for op in STREAMOPS + FILEOPS:
                yield ['dmap', init, fn, depth, op]
    depth = 3 if tier == 'quick' else 4
    for init in ('rawacf', 'grid', 'rawbad', 'A'):
        for fn in (0, 1):
            for op in SDOPS:
                yield ['sdarn', init, fn, depth, op]


def run(case, ctx):
    kind, init, fn, depth, first = case
    ops = STREAMOPS + FILEOPS if kind == 'dmap' else SDOPS
    sets = recsets()
    sets['raw2'] = sets['rawacf']
    for rest in itertools.product(ops, repeat=depth - 1):
        one(case, ctx, sets, kind, init, fn, (first,) + rest)


def held_key(held):
    return tuple(sorted(held))


def one(case, ctx, sets, kind, init, fn, seq):
    from pydarnio import DmapWrite, SDarnWrite
    d = ctx.path('w')
    if not os.path.isdir(d):
        os.mkdir(d)
    f1, f2 = os.path.join(d, '1'), os.path.join(d, '2')
    for f in (f1, f2):
        if os.path.exists(f):
            os.unlink(f)
    paths = {'1': f1, '2': f2, 'missing': os.path.join(d, 'no', 'such')}
    given = {}
    snaps = {}

    def make(name):
        if name not in given:
            given[name] = sets[name][1]()
            snaps[name] = snap(given[name])
        return given[name]

    cls = DmapWrite if kind == 'dmap' else SDarnWrite
    w = cls(make(init), f1 if fn else '')
    # ---- model
    held = {init}            # record sets a write without records may write
    uncertain = False        # such a write may also raise
    names = {f1} if fn else set()
    files = {f1: None, f2: None}
    returned = []
    key = ':'.join([kind, init, str(fn)] + list(seq))
    ctx.ev(key)
    ctx.traces += 1
    ctx.sample(key)

    def mstate():
        return (kind, held_key(held), uncertain, tuple(sorted(os.path.basename(n) for n in names)),
                tuple(None if files[f] is None else zlib.crc32(files[f]) for f in (f1, f2)))
    ctx.state(mstate())
    for i, op in enumerate(seq):
        what, _, arg = op.partition(':')
        before = mstate()
        err = out = None
        try:
            if what == 'stream':
                out = w.write_dmap_stream(make(arg)) if arg else w.write_dmap_stream()
            else:
                meth = getattr(w, 'write_' + what)
                out = meth(paths[arg]) if arg else meth()
        except Exception as e:
            err = e
        k = 'seq:%s@%d' % (':'.join([kind, init, str(fn)] + list(seq[:i + 1])), i)

        def fail(text):
            ctx.bad(k, '%s: %s' % (k, text))

        if what == 'stream':
            if arg:
                ref = sets[arg][0]
                if ref is None:
                    uncertain = True
                    if err is None:
                        return fail('records that cannot be written were accepted')
                else:
                    held, uncertain = {arg}, False
                    if err is not None:
                        return fail('raised %r' % err)
            options = [sets[h][0] for h in held]
            if arg is None or arg == '' or sets[arg][0] is not None:
                if err is None:
                    if not any(o is not None and bytes(out) == dc.encode(o) for o in options):
                        return fail('stream bytes are not the encoding of the records')
                elif not uncertain and any(o is not None for o in options):
                    return fail('raised %r' % err)
            if err is None:
                returned.append((out, bytes(out)))
        else:
            if arg:
                names.discard(None)
                target = {paths[arg]}
            else:
                target = set(names)
            valid = [sets[h][0] for h in held if sets[h][0] is not None and (
                what == 'dmap' or all(not sdmodel.verdict(what, sdmodel.types_of(r)) for r in sets[h][0]))]
            if arg == 'missing':
                if err is None:
                    return fail('writing into a missing directory reported success')
                names |= target
            elif not target:
                if err is None:
                    return fail('a write without any file name reported success')
            elif err is None:
                if not valid:
                    return fail('records that break the rules of %s were written' % what)
                hit = [t for t in target if os.path.exists(t) and
                       open(t, 'rb').read() in [dc.encode(v) for v in valid]]
                if not hit:
                    return fail('no file holds the encoding of the records')
                h = hit if len(hit) == 1 else [t for t in hit]
                if arg:
                    names = {paths[arg]}
                for t in h:
                    files[t] = open(t, 'rb').read()
            else:
                if valid and not uncertain and not (target & {paths['missing']}):
                    return fail('raised %r' % err)
                if arg:
                    names |= target
        for f in (f1, f2):
            have = open(f, 'rb').read() if os.path.exists(f) else None
            if have != files[f]:
                return fail('file %s changed unexpectedly' % os.path.basename(f))
        for o, b in returned:
            if bytes(o) != b:
                return fail('bytes returned by an earlier write changed')
        ctx.state(mstate())
        ctx.transition((before, op, mstate()))
    for name in given:
        if snap(given[name]) != snaps[name]:
            ctx.bad('mutated:%s' % key, '%s: the records %s given to the writer were changed' % (key, name))
