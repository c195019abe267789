"""C01: what is written as DMAP reads back the same (file and stream)."""
import dmapcodec as dc
import dspace

PID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of bounded DMAP record lists (values, shapes, layouts, field '
             'orders, record orders) executed on the real writer and reader')
RULE = ('every record list of the bounded space is written with DmapWrite to a stream (and to a file) and read back '
        'with DmapRead; a case is non-trivial when at least one record was written and compared field by field')
ASSUMPTIONS = ['little-endian host', 'values, shapes, names and list lengths bounded as described in DESIGN.md',
               'every record holds at least one scalar and one non-empty array']

cases = dspace.cases


def same(ref, got):
    return dc.diff_dicts(ref, got)


def run(case, ctx):
    from pydarnio import DmapRead, DmapWrite
    n = 0
    for key, ref, given, form in dspace.expand(case):
        n += 1
        try:
            data = DmapWrite(given).write_dmap_stream()
            got = DmapRead(data, True).read_records()
            d = dc.diff_dicts(ref, got)
        except Exception as err:
            d = 'raised %s: %s' % (type(err).__name__, err)
        ctx.ev(key)
        ctx.sample(key)
        if d:
            ctx.bad('stream:%r' % (key,), 'stream round trip of %r: %s' % (key, d))
        if case[0] == 'lists' and n % 21 and len(key[1]) > 2:
            continue
        # the same through a file; every other time with the other entry points
        f = ctx.path('rt.dmap')
        try:
            if n % 2:
                DmapWrite(given, f).write_dmap()
            else:
                DmapWrite(given).write_dmap(f)
            rd = DmapRead(f)
            got = rd.read_records()
            d = dc.diff_dicts(ref, got) or dc.diff_dicts(ref, rd.get_records) or \
                dc.diff_dmap(ref, rd.get_dmap_records)
        except Exception as err:
            d = 'raised %s: %s' % (type(err).__name__, err)
        ctx.ev(('file', key))
        if d:
            ctx.bad('file:%r' % (key,), 'file round trip of %r: %s' % (key, d))
        # what was read is itself a valid input
        if case[0] != 'lists':
            try:
                back = DmapRead(DmapWrite(got).write_dmap_stream(), True).read_records()
                d = dc.diff_dicts(ref, back)
            except Exception as err:
                d = 'raised %s: %s' % (type(err).__name__, err)
            ctx.ev(('again', key))
            if d:
                ctx.bad('again:%r' % (key,), 'writing what was read, %r: %s' % (key, d))
