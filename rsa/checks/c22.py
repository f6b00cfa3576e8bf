"""C22: PRESTO headers map every line to the right field."""
from .. import terms as t
from ..spec import Suite

EXPLANATION = (
    'inf2dict is reduced to a value-flow normal form over the lines of the header text (line number, text after the separator '
    'column, conversion), with the run of on/off bin pairs as a symbolic sequence that shifts every later line; each field and the '
    'refusals are compared with a reference parser. The data file name, the coordinates, the samples, the metadata built from a '
    'header and the time series of from_presto_inf are compared with reference definitions, and the condition of the high-energy '
    'warning is compared with the documented one.')
MINIMUM = 24

PR = 'riptide.reading.presto'
INF = PR + '.PrestoInf'
MD = 'riptide.metadata.Metadata'
FROM = MD + '.from_presto_inf'
LOAD = 'riptide.time_series.TimeSeries.from_presto_inf'

t.NEVER_NONE |= {FROM}

SRC = '''
import os
import numpy as np
import astropy.units as uu
from astropy.coordinates import SkyCoord
from riptide.reading import presto
from riptide.reading.presto import PrestoInf
from riptide.metadata import Metadata
from riptide.time_series import TimeSeries

def value(line):
    if not (len(line) > 40 and line[40] == '='):
        raise ValueError
    return line[41:].strip()

def pair(line):
    a, b = value(line).split(',')
    return int(a), int(b)

def ref_inf(text):
    lines = text.strip('\\n').splitlines()
    v = [value(lines[0]), value(lines[1])]
    if v[1] == 'None (Artificial Data Set)':
        raise ValueError
    items = {
        'basename': v[0], 'telescope': v[1], 'instrument': value(lines[2]), 'source_name': value(lines[3]), 'raj': value(lines[4]),
        'decj': value(lines[5]), 'observer': value(lines[6]), 'mjd': float(value(lines[7])), 'barycentered': int(value(lines[8])) != 0,
        'nsamp': int(value(lines[9])), 'tsamp': float(value(lines[10])), 'breaks': int(value(lines[11])) != 0, 'onoff_pairs': []}
    if items['breaks']:
        for line in lines[12:]:
            try:
                items['onoff_pairs'].append(pair(line))
            except:
                break
    lines = lines[12 + len(items['onoff_pairs']):]
    band = value(lines[0])
    items['em_band'] = band
    if band == 'Radio':
        items['fov_arcsec'] = float(value(lines[1]))
        items['dm'] = float(value(lines[2]))
        items['fbot'] = float(value(lines[3]))
        items['bandwidth'] = float(value(lines[4]))
        items['nchan'] = int(value(lines[5]))
        items['cbw'] = float(value(lines[6]))
        items['analyst'] = value(lines[7])
    elif band == 'X-ray' or band == 'Gamma':
        items['fov_arcsec'] = float(value(lines[1]))
        items['central_energy_kev'] = float(value(lines[2]))
        items['energy_bandpass_kev'] = float(value(lines[3]))
        items['analyst'] = value(lines[4])
    else:
        raise ValueError
    return items

def inf(fname):
    p = PrestoInf(fname)
    return dict(p), p.fname

def ref_open(fname):
    with open(fname, 'r') as f:
        text = f.read()
    return presto.inf2dict(text), os.path.realpath(fname)

def ref_open_abs(fname):
    a, b = ref_open(fname)
    return a, os.path.abspath(fname)

def ref_open_real(fname):
    with open(os.path.realpath(fname), 'r') as f:
        text = f.read()
    return presto.inf2dict(text), os.path.realpath(fname)

def data_name(p):
    return p.data_fname

def ref_name(p):
    return p.fname.rsplit('.', maxsplit=1)[0] + '.dat'

def ref_name2(p):
    return os.path.splitext(p.fname)[0] + '.dat'

def coord(p):
    return p.skycoord

def ref_coord(p):
    return SkyCoord(p['raj'], p['decj'], unit=(uu.hour, uu.degree))

def ref_coord2(p):
    return SkyCoord(p['raj'], p['decj'], unit=(uu.hour, uu.degree), frame='icrs')

def samples(p):
    return p.load_data()

def ref_samples(p):
    return np.fromfile(p.data_fname, dtype=np.float32)

def meta(p):
    return Metadata.from_presto_inf(p)

def meta_str(p):
    return Metadata.from_presto_inf(p)

def ref_meta(p):
    attrs = dict(p)
    attrs['skycoord'] = p.skycoord
    attrs['fname'] = os.path.realpath(p.fname)
    attrs['tobs'] = p['tsamp'] * p['nsamp']
    return Metadata(attrs)

def ref_meta_plain(p):
    attrs = dict(p)
    attrs['skycoord'] = p.skycoord
    attrs['fname'] = p.fname
    attrs['tobs'] = p['tsamp'] * p['nsamp']
    return Metadata(attrs)

def ref_meta_str(p):
    return ref_meta(PrestoInf(p))

def ref_meta_str_plain(p):
    return ref_meta_plain(PrestoInf(p))

def load(fname):
    return TimeSeries.from_presto_inf(fname)

def ref_load(fname):
    p = PrestoInf(fname)
    return TimeSeries(p.load_data(), tsamp=p['tsamp'], metadata=Metadata.from_presto_inf(p))

def hot(fname):
    b = PrestoInf(fname)['em_band']
    return b == 'X-ray' or b == 'Gamma'
'''
FIELDS = ['basename', 'telescope', 'instrument', 'source_name', 'raj', 'decj', 'observer', 'mjd', 'barycentered', 'nsamp', 'tsamp',
          'breaks', 'onoff_pairs', 'em_band', 'fov_arcsec', 'dm', 'fbot', 'bandwidth', 'nchan', 'cbw', 'analyst', 'central_energy_kev',
          'energy_bandpass_kev']


def plain(x):
    """a header object made by a constructor kept symbolic, and a copy of a dictionary, are the value itself; what metadata carry of a
    header is the header's"""
    def f(y):
        if y.op == 'rec' and y.a[0] in (INF, MD) and len(y.a[1]) == 1 and y.a[1][0][0] == '$c':
            return y.a[1][0][1]
        if y.op == 'dict' and len(y.a[0]) == 1 and y.a[0][0][0].op == 'splice':
            return y.a[0][0][1]
        if y.op == 'item' and y.a[1].op == 'const' and y.a[1].a[0] in ('em_band', 'tsamp'):
            b = y.a[0]
            if b.op == 'app' and b.a[0] == FROM and dict(b.a[1]).get('inf') is not None:
                return t.item(dict(b.a[1])['inf'], y.a[1])
    return t.replace(x, f)


def run(rep):
    s = Suite(rep, SRC)
    rule = 'value-flow normal form equals the reference definition'
    Z = 'riptide.zzspec.'

    def cmp(subject, act, refs, where, op=(), types={}, ret={}, norm=plain, rule=rule):
        a = s.run(Z + act if not act.startswith('riptide.') else act, opaque=op, types=types, ret_types=ret)
        rs = [s.run(Z + x, opaque=op, types=types, ret_types=ret) for x in refs]
        w = s.where(where)
        if a is None or any(x is None for x in rs):
            rep.undecided(rule, subject, w, s.last_error)
            return a, rs
        s.judge(rule, subject, norm(s.value(a)), [norm(s.value(x)) for x in rs], w)
        s.judge(rule, subject + ': refusals', norm(a.raise_cond()), [norm(x.raise_cond()) for x in rs], w)
        return a, rs

    # parser
    q = PR + '.inf2dict'
    a = s.run(q)
    r = s.run(Z + 'ref_inf')
    w = s.where(q)
    if a is None or r is None:
        rep.undecided(rule, 'inf2dict', w, s.last_error)
    else:
        va, vr = s.value(a), s.value(r)
        s.judge('the header is accepted or refused as documented', 'inf2dict: refusals', a.raise_cond(), [r.raise_cond()], w)
        s.judge('each field holds the value of its line', 'inf2dict: all fields', va, [vr], w)
        for f in FIELDS:
            k = t.const(f)
            s.judge('each field holds the value of its line', 'field ' + f, fieldof(va, k), [fieldof(vr, k)], w)
    ty = {'p': INF}
    op = (q,)
    cmp('file given to PrestoInf', 'inf', ['ref_open', 'ref_open_abs', 'ref_open_real'], INF, op=op)
    cmp('name of the data file', 'data_name', ['ref_name', 'ref_name2'], INF, types=ty, op=op)
    cmp('sky coordinates', 'coord', ['ref_coord', 'ref_coord2'], INF, types=ty, op=op)
    cmp('samples', 'samples', ['ref_samples'], INF, types=ty, op=op)
    cmp('metadata of a header', 'meta', ['ref_meta', 'ref_meta_plain'], FROM, types=ty, op=op)
    op = (INF,)
    cmp('metadata of a file', 'meta_str', ['ref_meta_str', 'ref_meta_str_plain'], FROM, types={'p': 'str'}, op=op, ret={INF: INF})
    op = (INF, FROM, INF + '.load_data')
    a, _ = cmp('time series', 'load', ['ref_load'], LOAD, types={'fname': 'str'}, op=op, ret={INF: INF, FROM: MD})
    # warning
    rule = 'data of a high-energy band, and only that, trigger a warning'
    h = s.run(Z + 'hot', types={'fname': 'str'}, opaque=op, ret_types={INF: INF, FROM: MD})
    if a is None or h is None:
        rep.undecided(rule, 'TimeSeries.from_presto_inf', s.where(LOAD), s.last_error)
    else:
        c = t.FALSE
        for e in a.events:
            if e.kind == 'call' and e.data['name'] == 'warnings.warn':
                c = t.lor(c, e.guard)
        s.judge(rule, 'TimeSeries.from_presto_inf', plain(t.lor(c, a.raise_cond())), [plain(t.lor(s.value(h), a.raise_cond()))], s.where(LOAD))


def fieldof(v, k):
    if v.op == 'ite':
        return t.ite(v.a[0], fieldof(v.a[1], k), fieldof(v.a[2], k))
    if v.op == 'dict':
        for kk, x in v.a[0]:
            if kk is k:
                return x
            if kk.op == 'splice':
                return t.item(v, k)
        return t.const('absent')
    return t.item(v, k)
