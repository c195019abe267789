"""Independent model of the SuperDARN file types (literal tables).

(group name, optional?, 'field:type ...'); types are DMAP format letters.
"""
import collections
import numpy as np
import dmapcodec as dc

TABLES = {
    'iqdat': [
        ('types', False, '''
            radar.revision.major:c radar.revision.minor:c origin.code:c origin.time:s origin.command:s
            cp:h stid:h time.yr:h time.mo:h time.dy:h time.hr:h time.mt:h time.sc:h time.us:i txpow:h
            nave:h atten:h lagfr:h smsep:h ercod:h stat.agc:h stat.lopwr:h noise.search:f noise.mean:f
            channel:h bmnum:h bmazm:f scan:h offset:h rxrise:h intt.sc:h intt.us:i txpl:h mpinc:h mppul:h
            mplgs:h nrang:h frang:h rsep:h xcf:h tfreq:h mxpwr:i lvmax:i iqdata.revision.major:i iqdata.revision.minor:i
            combf:s seqnum:i chnnum:i smpnum:i skpnum:i ptab:h ltab:h tsc:i tus:i tatten:h tnoise:f toff:i
            tsze:i data:h'''),
    ],
    'rawacf': [
        ('types', False, '''
            radar.revision.major:c radar.revision.minor:c origin.code:c origin.time:s origin.command:s
            cp:h stid:h time.yr:h time.mo:h time.dy:h time.hr:h time.mt:h time.sc:h time.us:i txpow:h
            nave:h atten:h lagfr:h smsep:h ercod:h stat.agc:h stat.lopwr:h noise.search:f noise.mean:f
            channel:h bmnum:h bmazm:f scan:h offset:h rxrise:h intt.sc:h intt.us:i txpl:h mpinc:h mppul:h
            mplgs:h nrang:h frang:h rsep:h xcf:h tfreq:h mxpwr:i lvmax:i rawacf.revision.major:i rawacf.revision.minor:i
            combf:s thr:f ptab:h ltab:h slist:h pwr0:f'''),
        ('correlation_field', False, '''
            acfd:f'''),
        ('cross_correlation_field', False, '''
            xcfd:f'''),
        ('digitizing_field', False, '''
            ifmode:h'''),
        ('fittex_field', False, '''
            mplgexs:h'''),
    ],
    'fitacf': [
        ('types', False, '''
            radar.revision.major:c radar.revision.minor:c origin.code:c origin.time:s origin.command:s
            cp:h stid:h time.yr:h time.mo:h time.dy:h time.hr:h time.mt:h time.sc:h time.us:i txpow:h
            nave:h atten:h lagfr:h smsep:h ercod:h stat.agc:h stat.lopwr:h noise.search:f noise.mean:f
            channel:h bmnum:h bmazm:f scan:h offset:h rxrise:h intt.sc:h intt.us:i txpl:h mpinc:h mppul:h
            mplgs:h nrang:h frang:h rsep:h xcf:h tfreq:h mxpwr:i lvmax:i combf:s fitacf.revision.major:i
            fitacf.revision.minor:i noise.sky:f noise.lag0:f noise.vel:f ptab:h ltab:h pwr0:f'''),
        ('optional_fields', True, '''
            ifmode:h mplgexs:h tdiff:f algorithm:s'''),
        ('fitted_fields', False, '''
            slist:h nlag:h qflg:c gflg:c p_l:f p_l_e:f p_s:f p_s_e:f v:f v_e:f w_l:f w_l_e:f w_s:f w_s_e:f
            sd_l:f sd_s:f sd_phi:f'''),
        ('xcf_fields', False, '''
            phi0:f phi0_e:f elv:f x_sd_phi:f'''),
        ('xcf_fields_fitacf3', False, '''
            elv_fitted:f elv_error:f'''),
        ('xcf_fields_fitacf2', False, '''
            x_qflg:c x_gflg:c x_p_l:f x_p_l_e:f x_p_s:f x_p_s_e:f x_v:f x_v_e:f x_w_l:f x_w_l_e:f x_w_s:f
            x_w_s_e:f elv_low:f elv_high:f x_sd_l:f x_sd_s:f'''),
    ],
    'snd': [
        ('types', False, '''
            radar.revision.major:c radar.revision.minor:c origin.code:c origin.time:s origin.command:s
            cp:h stid:h time.yr:h time.mo:h time.dy:h time.hr:h time.mt:h time.sc:h time.us:i nave:h lagfr:h
            smsep:h noise.search:f noise.mean:f channel:h bmnum:h bmazm:f scan:h rxrise:h intt.sc:h intt.us:i
            nrang:h frang:h rsep:h xcf:h tfreq:h noise.sky:f combf:s fitacf.revision.major:i fitacf.revision.minor:i
            snd.revision.major:h snd.revision.minor:h'''),
        ('fitted_fields', False, '''
            slist:h qflg:c gflg:c v:f v_e:f p_l:f w_l:f'''),
        ('xcf_fields', False, '''
            x_qflg:c phi0:f phi0_e:f'''),
    ],
    'grid': [
        ('types', False, '''
            start.year:h start.month:h start.day:h start.hour:h start.minute:h start.second:d end.year:h
            end.month:h end.day:h end.hour:h end.minute:h end.second:d stid:h channel:h nvec:h freq:f
            major.revision:h minor.revision:h program.id:h noise.mean:f noise.sd:f gsct:h v.min:f v.max:f
            p.min:f p.max:f w.min:f w.max:f ve.min:f ve.max:f'''),
        ('fitted_fields', False, '''
            vector.mlat:f vector.vel.median:f vector.channel:h vector.stid:h vector.vel.sd:f vector.index:i
            vector.kvect:f vector.mlon:f'''),
        ('extra_fields', False, '''
            vector.pwr.median:f vector.pwr.sd:f vector.wdt.median:f vector.wdt.sd:f'''),
    ],
    'map': [
        ('types', False, '''
            start.year:h start.month:h start.day:h start.hour:h start.minute:h start.second:d end.year:h
            end.month:h end.day:h end.hour:h end.minute:h end.second:d map.major.revision:h map.minor.revision:h
            doping.level:h model.wt:h error.wt:h IMF.flag:h IMF.delay:h IMF.Bx:d IMF.By:d IMF.Bz:d IMF.Vx:d
            IMF.tilt:d IMF.Kp:d hemisphere:h noigrf:h fit.order:h latmin:f chi.sqr:d chi.sqr.dat:d rms.err:d
            lon.shft:f lat.shft:f mlt.start:d mlt.end:d mlt.av:d pot.drop:d pot.drop.err:d pot.max:d pot.max.err:d
            pot.min:d pot.min.err:d stid:h channel:h nvec:h freq:f major.revision:h minor.revision:h program.id:h
            noise.mean:f noise.sd:f gsct:h v.min:f v.max:f p.min:f p.max:f w.min:f w.max:f ve.min:f ve.max:f'''),
        ('partial_fields', False, '''
            vector.mlat:f vector.mlon:f vector.kvect:f vector.stid:h vector.channel:h vector.index:i vector.vel.median:f
            vector.vel.sd:f'''),
        ('extra_fields', False, '''
            vector.pwr.median:f vector.pwr.sd:f vector.wdt.median:f vector.wdt.sd:f'''),
        ('fit_fields', False, '''
            source:s N:d N+1:d N+2:d N+3:d'''),
        ('hmb_fields', False, '''
            model.mlat:f model.mlon:f model.kvect:f model.vel.median:f boundary.mlat:f boundary.mlon:f'''),
        ('model_fields', False, '''
            model.angle:s model.level:s model.tilt:s model.name:s'''),
    ],
}


def _parse(text):
    return collections.OrderedDict(w.rsplit(':', 1) for w in text.split())


GROUPS = {t: [(g, opt, _parse(text)) for g, opt, text in gs] for t, gs in TABLES.items()}
TYPES = list(GROUPS)
# fields that are arrays in real files
ARRAYS = set('''ptab ltab tsc tus tatten tnoise toff tsze data slist pwr0 acfd xcfd nlag qflg gflg p_l p_l_e
    p_s p_s_e v v_e w_l w_l_e w_s w_s_e sd_l sd_s sd_phi phi0 phi0_e elv x_sd_phi elv_fitted elv_error x_qflg x_gflg
    x_p_l x_p_l_e x_p_s x_p_s_e x_v x_v_e x_w_l x_w_l_e x_w_s x_w_s_e elv_low elv_high x_sd_l x_sd_s
    nvec freq major.revision minor.revision program.id noise.mean noise.sd gsct v.min v.max p.min p.max w.min
    w.max ve.min ve.max vector.mlat vector.mlon vector.kvect vector.stid vector.channel vector.index
    vector.vel.median vector.vel.sd vector.pwr.median vector.pwr.sd vector.wdt.median vector.wdt.sd vector.srng
    N N+1 N+2 N+3 model.mlat model.mlon model.kvect model.vel.median boundary.mlat boundary.mlon'''.split())


def fields(ftype):
    out = collections.OrderedDict()
    for _, _, f in GROUPS[ftype]:
        out.update(f)
    return out


def is_array(ftype, name):
    if name == 'noise.mean' and ftype not in ('grid', 'map'):
        return False
    if name == 'channel' and ftype in ('grid', 'map'):
        return True
    if name == 'stid' and ftype in ('grid', 'map'):
        return True
    return name in ARRAYS


def verdict(ftype, types):
    """types: {field: format letter} of one record.  Returns the set of rules
    broken: {kind: fields}, kinds 'missing', 'extra', 'type'."""
    out = {}
    known = fields(ftype)
    missing = set()
    for _, opt, g in GROUPS[ftype]:
        absent = [f for f in g if f not in types]
        if not opt and 0 < len(absent) < len(g):
            missing |= set(absent)
    extra = set(f for f in types if f not in known)
    wrong = set(f for f in types if f in known and known[f] != types[f])
    if missing:
        out['missing'] = missing
    if extra:
        out['extra'] = extra
    if wrong:
        out['type'] = wrong
    return out


def make_field(ftype, name, letter, k=0, array=None):
    """Reference field (3- or 4-tuple) with values that depend on k."""
    code = dc.CODE[letter]
    if array is None:
        array = is_array(ftype, name)
    if array and letter != 's':
        n = 1 + k % 3 if name != 'slist' else 2
        shape = (2, n, 2) if name in ('acfd', 'xcfd') else (n + 1,)
        raw = dc.cells(code, int(np.prod(shape)), k + len(name)).tobytes()
        return (name, code, shape, raw)
    if letter == 's':
        return (name, code, '%s %d' % (name, k))
    return (name, code, dc.cells(code, 3 + k % 5, len(name))[-1].item())


def make_record(ftype, groups=None, k=0, drop=(), types=None, add=()):
    """Reference record with the named groups (all when None)."""
    types = types or {}
    fs = []
    for g, _, f in GROUPS[ftype]:
        if groups is None or g in groups:
            for name, letter in f.items():
                if name not in drop:
                    fs.append(make_field(ftype, name, types.get(name, letter), k))
    for name, letter in add:
        fs.append(make_field(ftype, name, types.get(name, letter), k))
    return ([f for f in fs if len(f) == 3], [f for f in fs if len(f) == 4])


def to_dict(rec):
    """The record as a user would hand it to the writer."""
    d = collections.OrderedDict()
    for n, c, v in rec[0]:
        d[n] = dc.np_value(c, v)
    for n, c, shp, raw in rec[1]:
        d[n] = np.frombuffer(raw, dc.CODES[c][2]).reshape(shp).copy()
    return d


def types_of(rec):
    return {f[0]: dc.LETTER[f[1]] for f in rec[0] + rec[1]}


def read(reader, ftype):
    return getattr(reader, 'read_' + ftype)()


def write(writer, ftype, *a):
    return getattr(writer, 'write_' + ftype)(*a)
