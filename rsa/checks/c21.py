"""C21: SIGPROC files are decoded by the declared header."""
from .. import effects
from .. import terms as t
from ..spec import Suite, decide
from . import pipe

EXPLANATION = (
    'The header reader (SigprocHeader, with everything it calls inlined) is reduced to a value-flow normal form in which file reads '
    'are positions in the byte stream; it is compared with a reference reader: start flag, then repeated (name, value) pairs with the '
    'value read by the width of the type declared for that name, up to the end flag, the header size being the position reached. '
    'The type table is compared entry by entry with the documented one and must not be modified by any function. Derived properties '
    '(samples, duration, coordinates), the metadata built from a header, its refusals, and the data array read from the file are '
    'compared with reference definitions.')
MINIMUM = 50

SP = 'riptide.reading.sigproc'
SH = SP + '.SigprocHeader'
MD = 'riptide.metadata.Metadata'
FROM = MD + '.from_sigproc'

TABLE = {'filename': 'str', 'telescope_id': 'int', 'telescope': 'str', 'machine_id': 'int', 'data_type': 'int', 'rawdatafile': 'str',
         'source_name': 'str', 'barycentric': 'int', 'pulsarcentric': 'int', 'az_start': 'float', 'za_start': 'float', 'src_raj': 'float',
         'src_dej': 'float', 'tstart': 'float', 'tsamp': 'float', 'nbits': 'int', 'nsamples': 'int', 'fch1': 'float', 'foff': 'float',
         'fchannel': 'float', 'nchans': 'int', 'nifs': 'int', 'refdm': 'float', 'flux': 'float', 'period': 'float', 'nbeams': 'int',
         'ibeam': 'int', 'hdrlen': 'int', 'pb': 'float', 'ecc': 'float', 'asini': 'float', 'orig_hdrlen': 'int', 'new_hdrlen': 'int',
         'sampsize': 'int', 'bandwidth': 'float', 'fbottom': 'float', 'ftop': 'float', 'obs_date': 'str', 'obs_time': 'str',
         'accel': 'float', 'signed': 'bool'}

t.NEVER_NONE |= {FROM}

SRC = '''
import os
import struct
import numpy as np
from astropy.coordinates import SkyCoord
import astropy.units as uu
from riptide.reading import sigproc
from riptide.reading.sigproc import SigprocHeader
from riptide.metadata import Metadata
from riptide.time_series import TimeSeries

def table():
    return sigproc.sigproc_keydb

def header(fname, extra_keys):
    h = SigprocHeader(fname, extra_keys)
    return dict(h), h.bytesize, h.fname

def rstr(f):
    n, = struct.unpack('i', f.read(4))
    return f.read(n).decode()

def ref_header(fname, extra_keys):
    keydb = sigproc.sigproc_keydb
    if extra_keys:
        keydb = dict(keydb)
        keydb.update(extra_keys)
    path = os.path.abspath(fname)
    with open(path, 'rb') as f:
        f.seek(0)
        if rstr(f) != 'HEADER_START':
            raise AssertionError
        attrs = {}
        while True:
            key = rstr(f)
            if key == 'HEADER_END':
                break
            if key not in keydb or keydb[key] is None:
                raise KeyError
            k = keydb[key]
            if k == str:
                val = rstr(f)
            elif k == int:
                val, = struct.unpack('i', f.read(4))
            elif k == float:
                val, = struct.unpack('d', f.read(8))
            elif k == bool:
                val, = struct.unpack('B', f.read(1))
                val = bool(val)
            else:
                raise ValueError
            attrs[key] = val
        size = f.tell()
    return attrs, size, path

def ref_header_merged(fname, extra_keys):
    keydb = dict(sigproc.sigproc_keydb)
    keydb.update(extra_keys)
    path = os.path.abspath(fname)
    with open(path, 'rb') as f:
        f.seek(0)
        if rstr(f) != 'HEADER_START':
            raise AssertionError
        attrs = {}
        while True:
            key = rstr(f)
            if key == 'HEADER_END':
                break
            if key not in keydb or keydb[key] is None:
                raise KeyError
            k = keydb[key]
            if k == str:
                val = rstr(f)
            elif k == int:
                val, = struct.unpack('i', f.read(4))
            elif k == float:
                val, = struct.unpack('d', f.read(8))
            elif k == bool:
                val, = struct.unpack('B', f.read(1))
                val = bool(val)
            else:
                raise ValueError
            attrs[key] = val
        size = f.tell()
    return attrs, size, path

def ref_header_real(fname, extra_keys):
    a, b, path = ref_header(fname, extra_keys)
    return a, b, os.path.realpath(fname)

def one(f, keydb):
    return sigproc.read_attribute(f, keydb)

def ref_one(f, keydb):
    key = rstr(f)
    if key == 'HEADER_END':
        return key, None
    if key not in keydb or keydb[key] is None:
        raise KeyError
    k = keydb[key]
    if k == str:
        val = rstr(f)
    elif k == int:
        val, = struct.unpack('i', f.read(4))
    elif k == float:
        val, = struct.unpack('d', f.read(8))
    elif k == bool:
        val, = struct.unpack('B', f.read(1))
        val = bool(val)
    else:
        raise ValueError
    return key, val

def nsamp(sh):
    return sh.nsamp

def ref_nsamp(sh):
    return (os.path.getsize(sh.fname) - sh.bytesize) // (sh['nchans'] * sh['nbits'] // 8)

def tobs(sh):
    return sh.tobs

def ref_tobs(sh):
    return ref_nsamp(sh) * sh['tsamp']

def coord(sh):
    return sh.skycoord

def sexagesimal(f):
    s = np.sign(f)
    a = abs(f)
    hh = a // 10000.0
    mm = (a - 10000.0 * hh) // 100.0
    ss = a - 10000.0 * hh - 100.0 * mm
    return s * (hh + mm / 60.0 + ss / 3600.0)

def ref_coord(sh):
    return SkyCoord(sexagesimal(sh['src_raj']), sexagesimal(sh['src_dej']), unit=(uu.hour, uu.degree), frame='icrs')

def ref_coord2(sh):
    return SkyCoord(sexagesimal(sh['src_raj']), sexagesimal(sh['src_dej']), unit=(uu.hour, uu.degree))

def meta(sh):
    return Metadata.from_sigproc(sh)

def meta_str(fname, extra_keys):
    return Metadata.from_sigproc(fname, extra_keys=extra_keys)

def ref_meta(sh):
    if sh['nchans'] > 1:
        raise ValueError
    if sh['nbits'] != 8 and sh['nbits'] != 32:
        raise ValueError
    if sh['nbits'] == 8 and 'signed' not in sh:
        raise ValueError
    attrs = dict(sh)
    attrs['dm'] = sh.get('refdm', None)
    attrs['mjd'] = sh.get('tstart', None)
    attrs['source_name'] = sh.get('source_name', None)
    attrs['skycoord'] = sh.skycoord
    attrs['fname'] = os.path.realpath(sh.fname)
    attrs['tobs'] = sh.tobs
    return Metadata(attrs)

def ref_meta_abs(sh):
    m = ref_meta(sh)
    m['fname'] = os.path.abspath(sh.fname)
    return m

def ref_meta_str(fname, extra_keys):
    return ref_meta(SigprocHeader(fname, extra_keys=extra_keys))

def ref_meta_str_abs(fname, extra_keys):
    return ref_meta_abs(SigprocHeader(fname, extra_keys=extra_keys))

def load(fname, extra_keys):
    return TimeSeries.from_sigproc(fname, extra_keys=extra_keys)

def ref_load_with(fname, extra_keys, src):
    sh = SigprocHeader(fname, extra_keys=extra_keys)
    m = Metadata.from_sigproc(sh, extra_keys=extra_keys)
    if sh['nbits'] == 8:
        if sh['signed']:
            data = np.fromfile(src, dtype=np.int8, offset=sh.bytesize).astype(np.float32)
        else:
            data = np.fromfile(src, dtype=np.uint8, offset=sh.bytesize).astype(np.float32)
    else:
        data = np.fromfile(src, dtype=np.float32, offset=sh.bytesize)
    return TimeSeries(data, tsamp=sh['tsamp'], metadata=m)

def ref_load(fname, extra_keys):
    return ref_load_with(fname, extra_keys, fname)
'''


def plain(x):
    """a header object made by a constructor kept symbolic, and a copy of a dictionary, are the value itself"""
    def f(y):
        if y.op == 'rec' and y.a[0] == SH and len(y.a[1]) == 1 and y.a[1][0][0] == '$c':
            return y.a[1][0][1]
        if y.op == 'dict' and len(y.a[0]) == 1 and y.a[0][0][0].op == 'splice':
            return y.a[0][0][1]
    return t.replace(x, f)


def unref(x):
    """values taken from the metadata are those of the header it was built from"""
    def f(y):
        if y.op == 'app' and y.a[0] == FROM:
            b = dict(y.a[1])
            b.pop('extra_keys', None)           # only used when a path is given
            return t.mk('app', FROM, tuple(sorted(b.items())))
        if y.op == 'item' and y.a[1].op == 'const' and y.a[1].a[0] in ('nbits', 'signed', 'tsamp', 'nchans'):
            b = y.a[0]
            if b.op == 'app' and b.a[0] == FROM and dict(b.a[1]).get('sh') is not None:
                return t.item(dict(b.a[1])['sh'], y.a[1])
    return t.replace(plain(x), f)


def run(rep):
    s = Suite(rep, SRC)
    rule = 'value-flow normal form equals the reference definition'
    Z = 'riptide.zzspec.'

    def cmp(subject, act, refs, where, op=(), types={}, ret={}, parts=('ret', 'raises'), norm=None, rule=rule):
        a = s.run(Z + act, opaque=op, types=types, ret_types=ret)
        rs = [s.run(Z + x, opaque=op, types=types, ret_types=ret) for x in refs]
        w = s.where(where)
        if a is None or any(x is None for x in rs):
            rep.undecided(rule, subject, w, s.last_error)
            return
        n = norm or plain
        if 'ret' in parts:
            ok = t.lnot(n(a.raise_cond()))
            known = s.judge(rule, subject, n(s.value(a)), [n(s.value(x)) for x in rs], w, None if ok is t.TRUE else ok)
        if 'raises' in parts:
            if known == 'undecided' and t._mentions_any(a.raise_cond(), ('anyiter',), {}):
                # a refusal inside a loop whose iterations could not be read
                v, det = decide(n(a.raise_cond()), [n(x.raise_cond()) for x in rs])
                (rep.holds if v == 'holds' else rep.undecided)(rule, subject + ': refusals', w, det)
                return
            s.judge(rule, subject + ': refusals', n(a.raise_cond()), [n(x.raise_cond()) for x in rs], w)

    # type table
    r = s.run(Z + 'table')
    tab = s.value(r) if r is not None else None
    got = {}
    if tab is not None and tab.op == 'dict':
        for k, v in tab.a[0]:
            if k.op == 'const':
                got[k.a[0]] = v
    for k, ty in TABLE.items():
        v = got.get(k)
        if not got:
            rep.undecided('declared type of the header key', k, s.where(SH), 'type table not found')
        elif v is None:
            rep.violated('declared type of the header key', k, s.where(SH), 'missing from the table')
        else:
            rep.check(v.op == 'glob' and v.a[0].rsplit('.', 1)[-1] == ty, 'declared type of the header key', k, s.where(SH), t.show(v))
    # reader
    cmp('SIGPROC header: attributes, size and path', 'header', ['ref_header', 'ref_header_real', 'ref_header_merged'], SH)
    if SP + '.read_attribute' in effects.Graph(s.prog).fns:
        cmp('one header key and value', 'one', ['ref_one'], SH)
    ty = {'sh': SH}
    cmp('number of samples', 'nsamp', ['ref_nsamp'], SH, types=ty)
    cmp('observation length', 'tobs', ['ref_tobs'], SH, types=ty)
    cmp('sky coordinates', 'coord', ['ref_coord', 'ref_coord2'], SH, types=ty)
    # metadata
    cmp('metadata of a header', 'meta', ['ref_meta', 'ref_meta_abs'], FROM, types=ty)
    op = (SH,)
    cmp('metadata of a file', 'meta_str', ['ref_meta_str', 'ref_meta_str_abs'], FROM, op=op, types={'fname': 'str'}, ret={SH: SH})
    # data
    op = (SH, FROM)
    cmp('time series', 'load', ['ref_load'], 'riptide.time_series.TimeSeries.from_sigproc', op=op, types={'fname': 'str'},
        ret={SH: SH, FROM: MD}, norm=unref)
    # the type table is not modified
    g = effects.Graph(s.prog)
    rule = 'key types given for one file are not kept'
    for q, f in sorted(g.fns.items()):
        if not q.startswith(SP):
            continue
        w = g.shared_writes(f)
        rep.check(not w, rule, q.replace('riptide.', '', 1), f.where, w[0][0] if w else '')
