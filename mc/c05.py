"""C05: SuperDARN field rules, identically for reader and writer."""
import itertools
import dmapcodec as dc
import sdmodel

PID = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded deviations (all group subsets, every field removed / '
             'retyped / added, all pairs of deviations, every position of the failing record) on the real reader and '
             'writer, judged by an independent literal table model')
RULE = ('each record list is handed to the real writer and its reference encoding to the real reader; both must give '
        'the model\'s verdict, and a refusal must name the record and the exact fields; non-trivial when it deviates '
        'from the complete valid record')
ASSUMPTIONS = ['when a record breaks several rules any of them may be the one reported',
               'types mean DMAP element types; the tables in mc/sdmodel.py state the formats',
               'DMAP files need a scalar and an array per record']

FOREIGN = ['foo', 'STID', 'stid ', 'bmnum2', 'acfd2', 'x', 'slists', 'vector.mlt', 'data2', '']
LETTERS = list(dc.CODE)


def group_subsets(t):
    gs = [g for g, _, _ in sdmodel.GROUPS[t]]
    for r in range(len(gs) + 1):
        yield from (list(c) for c in itertools.combinations(gs, r))


def cases(tier):
    for t in sdmodel.TYPES:
        for gs in group_subsets(t):
            yield ['groups', t, gs]
            if len(gs) in (1, len(sdmodel.GROUPS[t]) - 1, len(sdmodel.GROUPS[t])) or tier == 'thorough':
                yield ['single', t, gs, 1]
        yield ['single', t, None, 3]
        names = list(sdmodel.fields(t))
        for i in range(0, len(names), 8):
            yield ['pairs', t, i, min(i + 8, len(names))]
        for u in sdmodel.TYPES:
            yield ['as', t, u]
        yield ['mixed', t]
        if tier == 'thorough':
            for i in range(len(names)):
                yield ['pairtypes', t, i]
                yield ['triples', t, i]
    for t in sdmodel.TYPES:
        yield ['optional', t]


def judge(ctx, t, recs, key):
    """Run the reader and the writer on the records and compare verdicts."""
    from pydarnio import SDarnRead, SDarnWrite
    types = [sdmodel.types_of(r) for r in recs]
    want = [sdmodel.verdict(t, x) for x in types]
    first = next((i for i, w in enumerate(want) if w), None)
    k = '%s:%s' % (t, key)
    full = first is None and 'full' in key
    ctx.ev(None if full else k)
    ctx.sample(k)
    readable = all(s and a for s, a in recs)
    if readable:
        data = dc.encode(recs)
        err = got = None
        try:
            got = sdmodel.read(SDarnRead(data, True), t)
        except Exception as e:
            err = e
        verdict(ctx, 'read:' + k, err, first, want)
        if err is None and first is None:
            d = dc.diff_dicts(recs, got)
            if d:
                ctx.bad('read:' + k, 'reading %s: %s' % (k, d))
    f = ctx.path('o')
    err = None
    try:
        sdmodel.write(SDarnWrite([sdmodel.to_dict(r) for r in recs]), t, f)
    except Exception as e:
        err = e
    verdict(ctx, 'write:' + k, err, first, want)
    if err is None and first is None and open(f, 'rb').read() != dc.encode(recs):
        ctx.bad('write:' + k, 'writing %s: the file is not the encoding of the records' % k)


def verdict(ctx, k, err, first, want):
    from pydarnio import superdarn_exceptions as se
    if first is None:
        if err is not None:
            ctx.bad(k, '%s satisfies the rules but was refused: %r' % (k, err))
        return
    kinds = {se.SuperDARNFieldMissingError: 'missing', se.SuperDARNExtraFieldError: 'extra',
             se.SuperDARNDataFormatTypeError: 'type'}
    if err is None:
        return ctx.bad(k, '%s breaks %r in record %d but was accepted' % (k, want[first], first))
    kind = kinds.get(type(err))
    if kind is None:
        return ctx.bad(k, '%s: raised %r instead of one of the field errors' % (k, err))
    if kind not in want[first]:
        return ctx.bad(k, '%s: reported as %s fields, but it breaks %r' % (k, kind, want[first]))
    fields = err.incorrect_params if kind == 'type' else err.fields
    if set(fields) != want[first][kind]:
        return ctx.bad(k, '%s: names the %s fields %r instead of %r' % (k, kind, set(fields), want[first][kind]))
    if err.record_number != first:
        ctx.bad(k, '%s: names record %r instead of %d' % (k, err.record_number, first))


def deviations(t, names):
    """Single deviations: (label, drop, types, add)."""
    for n in names:
        yield 'drop %s' % n, [n], {}, []
    fs = sdmodel.fields(t)
    for n in names:
        for l in LETTERS:
            if l != fs[n]:
                yield 'type %s=%s' % (n, l), [], {n: l}, []


def foreign(t):
    mine = sdmodel.fields(t)
    out = [f for f in FOREIGN if f not in mine]
    for u in sdmodel.TYPES:
        for n, l in sdmodel.fields(u).items():
            if n not in mine and n not in out:
                out.append(n)
    return out


def run(case, ctx):
    fam, t = case[0], case[1]
    fs = sdmodel.fields(t)
    names = list(fs)
    if fam == 'groups':
        for pos in range(3):
            recs = [sdmodel.make_record(t, None, k) for k in range(3)]
            recs[pos] = sdmodel.make_record(t, case[2], pos)
            if recs[pos][0] or recs[pos][1]:
                judge(ctx, t, recs[:pos + 1], 'groups %s at %d' % (case[2], pos))
                judge(ctx, t, recs, 'groups %s at %d of 3' % (case[2], pos))
        if case[2]:
            recs = [sdmodel.make_record(t, case[2], k) for k in range(3)]
            judge(ctx, t, recs, 'groups %s all' % case[2])
    elif fam == 'single':
        gs, nrec = case[2], case[3]
        full = sdmodel.make_record(t, gs, 0)
        judge(ctx, t, [full], 'groups %s full' % gs)
        present = [f[0] for f in full[0] + full[1]]
        devs = list(deviations(t, present)) + [('add %s' % n, [], {}, [(n, LETTERS[i % len(LETTERS)])])
                                               for i, n in enumerate(foreign(t))]
        # fields of absent groups, one at a time
        devs += [('part %s' % n, [], {}, [(n, fs[n])]) for n in names if n not in present]
        for label, drop, types, add in devs:
            for pos in range(nrec):
                recs = [sdmodel.make_record(t, gs, k) for k in range(nrec)]
                recs[pos] = sdmodel.make_record(t, gs, pos, drop, types, add)
                if recs[pos][0] or recs[pos][1]:
                    judge(ctx, t, recs, 'groups %s %s at %d' % (gs, label, pos))
    elif fam == 'pairs':
        for i in range(case[2], case[3]):
            a = names[i]
            for b in names:
                if b > a:
                    judge(ctx, t, [sdmodel.make_record(t, None, 0, [a, b])], 'drop %s,%s' % (a, b))
                    w = {a: LETTERS[(LETTERS.index(fs[a]) + 1) % 11], b: LETTERS[(LETTERS.index(fs[b]) + 5) % 11]}
                    judge(ctx, t, [sdmodel.make_record(t, None, 0, [], w)], 'types %s' % w)
                if b != a:
                    w = {b: LETTERS[(LETTERS.index(fs[b]) + 3) % 11]}
                    judge(ctx, t, [sdmodel.make_record(t, None, 0, [a], w)], 'drop %s types %s' % (a, w))
            for n in ('foo', ''):
                judge(ctx, t, [sdmodel.make_record(t, None, 0, [a], {}, [(n, 'i')])], 'drop %s add %r' % (a, n))
                w = {a: LETTERS[(LETTERS.index(fs[a]) + 2) % 11]}
                judge(ctx, t, [sdmodel.make_record(t, None, 0, [], w, [(n, 'f')])], 'type %s add %r' % (w, n))
            # two bad records: the first one counts
            for b in (names[0], names[-1]):
                recs = [sdmodel.make_record(t, None, 0), sdmodel.make_record(t, None, 1, [a]),
                        sdmodel.make_record(t, None, 2, [], {}, [('foo', 'i')]), sdmodel.make_record(t, None, 3, [b])]
                judge(ctx, t, recs, 'record 1 drops %s, 2 adds, 3 drops %s' % (a, b))
    elif fam == 'as':
        for gs in group_subsets(case[2]):
            rec = sdmodel.make_record(case[2], gs, 1)
            if rec[0] and rec[1]:
                judge(ctx, t, [rec], 'a %s record with %s' % (case[2], gs))
                judge(ctx, t, [sdmodel.make_record(t, None, 0), rec], 'then a %s record with %s' % (case[2], gs))
    elif fam == 'mixed':
        # records of one file may have different groups
        subs = [g for g in group_subsets(t) if g and g[0] == 'types']
        for a, b in itertools.product(subs, subs):
            judge(ctx, t, [sdmodel.make_record(t, a, 0), sdmodel.make_record(t, b, 1)], 'groups %s then %s' % (a, b))
    elif fam == 'optional':
        for g, opt, f in sdmodel.GROUPS[t]:
            if len(f) > 8:
                continue
            for r in range(len(f) + 1):
                for keep in itertools.combinations(f, r):
                    drop = [n for n in f if n not in keep]
                    for base in (None, ['types', g]):
                        judge(ctx, t, [sdmodel.make_record(t, base, 0, drop)], 'group %s without %s (%s)' % (
                            g, drop, base))
    elif fam == 'pairtypes':
        a = names[case[2]]
        for b in names[case[2] + 1:]:
            for x, y in itertools.product(LETTERS, LETTERS):
                judge(ctx, t, [sdmodel.make_record(t, None, 0, [], {a: x, b: y})], 'types %s=%s,%s=%s' % (a, x, b, y))
    elif fam == 'triples':
        a = names[case[2]]
        for b, c in itertools.combinations(names[case[2] + 1:], 2):
            judge(ctx, t, [sdmodel.make_record(t, None, 0, [a, b, c])], 'drop %s,%s,%s' % (a, b, c))
