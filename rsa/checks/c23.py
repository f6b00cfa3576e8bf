"""C23: metadata always carry their reserved fields, validated."""
from .. import terms as t
from ..spec import Suite
from . import c17

EXPLANATION = (
    'The content of a constructed metadata object is compared with the reference (given entries plus null for each absent reserved '
    'field). The schema that the constructor validates with is taken from the validation call on every path of the constructor, '
    'evaluated into a table (type restriction, predicate as a formula over an arbitrary value, null accepted) and compared entry by '
    'entry with the documented types and values; it must be applied to the very entries that are stored. The fields that the file '
    'loaders fill and the metadata of time series and periodograms created without any are compared with reference definitions.')
MINIMUM = 30

MD = 'riptide.metadata.Metadata'
SH = 'riptide.reading.sigproc.SigprocHeader'
INF = 'riptide.reading.presto.PrestoInf'
KEYS = ('source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname')

SRC = '''
import os
from schema import Schema, And, Or, Optional
from astropy.coordinates import SkyCoord
from riptide.metadata import Metadata
from riptide.time_series import TimeSeries
from riptide.periodogram import Periodogram

def make(items):
    return dict(Metadata(items))

def made(items):
    return dict(Metadata.from_dict(items))

def plain(m):
    return m.to_dict()

def ref_plain(m):
    return dict(m)

def ref_make(items):
    d = dict(items)
    for k in ('source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname'):
        d.setdefault(k, None)
    return d

def ref_make_over(items):
    return {'source_name': None, 'skycoord': None, 'dm': None, 'mjd': None, 'tobs': None, 'fname': None, **items}

def ref_make_if(items):
    d = dict(items)
    for k in ('source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname'):
        if k not in d:
            d[k] = None
    return d

def ref_ts(x, dt):
    return {'source_name': None, 'skycoord': None, 'dm': None, 'mjd': None, 'tobs': dt * len(x), 'fname': None}

def blank():
    return dict(Metadata())

def ref_blank():
    return {'source_name': None, 'skycoord': None, 'dm': None, 'mjd': None, 'tobs': None, 'fname': None}

def expected():
    return {
        'source_name': Or(str, None), 'skycoord': Or(SkyCoord, None), 'dm': Or(And(float, lambda x: x >= 0), None),
        'mjd': Or(And(float, lambda x: x >= 0), None), 'tobs': Or(And(float, lambda x: x > 0), None), 'fname': Or(str, None)}

def sig(sh):
    return Metadata.from_sigproc(sh)

def inf(p):
    return Metadata.from_presto_inf(p)

def ref_sig(sh):
    return {'dm': sh.get('refdm', None), 'mjd': sh.get('tstart', None), 'source_name': sh.get('source_name', None),
            'skycoord': sh.skycoord, 'fname': os.path.realpath(sh.fname), 'tobs': sh.tobs}

def ref_sig_abs(sh):
    return {'dm': sh.get('refdm', None), 'mjd': sh.get('tstart', None), 'source_name': sh.get('source_name', None),
            'skycoord': sh.skycoord, 'fname': os.path.abspath(sh.fname), 'tobs': sh.tobs}

def ref_inf(p):
    return {'dm': p['dm'] if 'dm' in p else None, 'mjd': p['mjd'] if 'mjd' in p else None,
            'source_name': p['source_name'] if 'source_name' in p else None, 'skycoord': p.skycoord,
            'fname': os.path.realpath(p.fname), 'tobs': p['tsamp'] * p['nsamp']}

def ref_inf_plain(p):
    return {'dm': p['dm'] if 'dm' in p else None, 'mjd': p['mjd'] if 'mjd' in p else None,
            'source_name': p['source_name'] if 'source_name' in p else None, 'skycoord': p.skycoord,
            'fname': p.fname, 'tobs': p['tsamp'] * p['nsamp']}

def ts_none(x, dt):
    return dict(TimeSeries(x, dt).metadata)

def ts_array(x, dt):
    return dict(TimeSeries.from_numpy_array(x, dt).metadata)

def pg_none(w, p, b, s):
    return dict(Periodogram(w, p, b, s).metadata)
'''


def field(v, k):
    if v.op == 'ite':
        return t.ite(v.a[0], field(v.a[1], k), field(v.a[2], k))
    if v.op == 'rec':
        return field(dict(v.a[1]).get('$c', v), k)
    if v.op == 'dict':
        for kk, x in reversed(v.a[0]):
            if kk.op == 'const' and kk.a[0] == k:
                return x
            if kk.op == 'splice':
                return t.item(v, t.const(k))
        return t.const('absent')
    return t.item(v, t.const(k))


def run(rep):
    s = Suite(rep, SRC)
    Z = 'riptide.zzspec.'
    rule = 'value-flow normal form equals the reference definition'

    def cmp(subject, act, refs, where=MD, given=None, **kw):
        a = s.run(Z + act, **kw)
        rs = [s.run(Z + x, **kw) for x in refs]
        w = s.where(where)
        if a is None or any(x is None for x in rs):
            rep.undecided(rule, subject, w, s.last_error)
            return a
        s.judge(rule, subject, s.value(a, given), [s.value(x, given) for x in rs], w, given)
        return a

    given = t.lnot(t.isnone(t.mk('param', 'items')))
    cmp('entries of Metadata(items)', 'make', ['ref_make', 'ref_make_if', 'ref_make_over'], given=given)
    cmp('entries of Metadata.from_dict(items)', 'made', ['ref_make', 'ref_make_if', 'ref_make_over'], given=given)
    cmp('entries of Metadata.to_dict()', 'plain', ['ref_plain'], types={'m': MD})
    cmp('entries of Metadata()', 'blank', ['ref_blank'])
    cmp('metadata of a time series created without', 'ts_none', ['ref_ts'], 'riptide.time_series.TimeSeries')
    cmp('metadata of a time series created from an array', 'ts_array', ['ref_ts'], 'riptide.time_series.TimeSeries')
    cmp('metadata of a periodogram created without', 'pg_none', ['ref_blank'], 'riptide.periodogram.Periodogram')

    # validation
    rule = 'every constructed object has passed validation of the entries it stores'
    q = MD + '.__init__'
    r = s.run(q)
    w = s.where(q)
    schema = None
    if r is None:
        rep.undecided(rule, 'Metadata', w, s.last_error)
    else:
        c = t.FALSE
        target = t.mk('param', s.argnames(q)[0][1])
        for e in r.events:
            if e.kind == 'call' and e.data['name'] in ('.validate', '.is_valid') and e.data.get('recv') is not None:
                rc = r.ev.deref(e.data['recv'], e and r.state) if e.data['recv'].op == 'ref' else e.data['recv']
                args = [r.ev.deref(a, r.state) for a in e.data['args']]
                if e.data['name'] == '.validate' and args and covers(args[0], target) and not e.tries:
                    c = t.lor(c, e.guard)
                    schema = rc
        if schema is None and r.raises:
            rep.undecided(rule, 'Metadata', w, 'validation without a schema object')
        else:
            s.judge(rule, 'Metadata', t.lor(c, r.raise_cond()), [t.TRUE], w)

    # schema
    rule = 'a reserved field has the documented type and values'
    exp = s.run(Z + 'expected')
    A, B = c17.Table(s), c17.Table(s)
    ALL = c17.TYPES
    c17.TYPES = ALL + ('astropy.coordinates.SkyCoord', 'astropy.coordinates.sky_coordinate.SkyCoord')
    try:
        B.add((), exp.ret)
        if schema is not None:
            A.add((), schema)
    finally:
        c17.TYPES = ALL
    for k in KEYS:
        if schema is None or isinstance(A.leaves.get(()), Exception) or isinstance(A.leaves.get((k,)), Exception):
            rep.undecided(rule, k, w, 'schema not found' if schema is None else str(A.leaves.get((k,), A.leaves.get(()))))
        elif (k,) not in A.leaves:
            rep.violated(rule, k, w, 'the schema does not restrict it')
        else:
            a, b = A.leaves[(k,)], B.leaves[(k,)]
            rep.check(c17.same_leaf(a, b), rule, k, w, 'found:    %s\nexpected: %s' % (c17.show_leaf(a), c17.show_leaf(b)))
            rep.check(A.required.get((k,)) is False, 'a reserved field may be left out', k, w, 'validation requires it')

    # loaders
    rule = 'a loader fills the reserved fields from the header of the file'
    for name, act, refs, ty, cl in (('from_sigproc', 'sig', ['ref_sig', 'ref_sig_abs'], {'sh': SH}, SH),
                                    ('from_presto_inf', 'inf', ['ref_inf', 'ref_inf_plain'], {'p': INF}, INF)):
        op = ('riptide.reading.presto.inf2dict',)
        a = s.run(Z + act, types=ty, opaque=op)
        rs = [s.run(Z + x, types=ty, opaque=op) for x in refs]
        w = s.where(MD + '.' + name)
        if a is None or any(x is None for x in rs):
            rep.undecided(rule, name, w, s.last_error)
            continue
        v, refsv = s.value(a), [s.value(x) for x in rs]
        rep.check(a.ev.typeof(a.raw) == MD, 'a loader returns a metadata object', name, w, t.show(v)[:200])
        ok = t.lnot(a.raise_cond())
        for k in KEYS:
            s.judge(rule, '%s: %s' % (name, k), field(v, k), [field(x, k) for x in refsv], w, given=ok)


def covers(x, target):
    """the validated value holds the given entries (or is the object that holds them)"""
    if x.op == 'ite':
        return covers(x.a[1], target) and covers(x.a[2], target)
    if x.op == 'dict':
        return not x.a[0] or x.a[0][0][0].op == 'splice' and covers(x.a[0][0][1], target)
    if x.op == 'rec' and x.a[0] == MD:
        return covers(dict(x.a[1]).get('$c', x), target)
    return x is target or x is t.mk('param', 'self')
