"""C07: in-place and copying operations agree."""
from .. import alias
from .. import terms as t
from ..spec import SPEC, Suite

EXPLANATION = (
    'Relational comparison: for each of deredden, normalise and downsample, a time series is created from symbolic data, '
    'sampling time and metadata and the in-place and the copying form of the operation are both evaluated to value-flow '
    'normal forms with the same symbolic arguments; data, sampling time, recorded duration, length and refusals of the two '
    'results must be equal. The copying forms must leave the original unchanged, return a new object and pass the '
    'original metadata on; the in-place forms return nothing.')
MINIMUM = 15

OPS = {'normalise': ('', ''), 'deredden': ('w, m', 'w, minpts=m'), 'downsample': ('f', 'f')}

SRC = 'from riptide.time_series import TimeSeries\nfrom riptide.metadata import Metadata\n'
for k, (p, a) in OPS.items():
    pp = ', ' + p if p else ''
    aa = a + ', ' if a else ''
    SRC += '''
def in_{k}(data, tsamp, md{pp}):
    ts = TimeSeries(data, tsamp, metadata=md)
    out = ts.{k}({aa}inplace=True)
    return ts.data, ts.tsamp, ts.metadata['tobs'], ts.length, out

def cp_{k}(data, tsamp, md{pp}):
    ts = TimeSeries(data, tsamp, metadata=md)
    out = ts.{k}({a})
    return out.data, out.tsamp, out.metadata['tobs'], out.length, out is ts

def un_{k}(data, tsamp, md{pp}):
    ts = TimeSeries(data, tsamp, metadata=md)
    out = ts.{k}({a})
    return ts.data, ts.tsamp, ts.metadata, ts.metadata['tobs'], ts.length

def md_{k}(data, tsamp, md{pp}):
    ts = TimeSeries(data, tsamp, metadata=md)
    out = ts.{k}({a})
    return out.metadata

def refmd_{k}(data, tsamp, md{pp}):
    ts = TimeSeries(data, tsamp, metadata=md)
    out = ts.{k}({a})
    m = Metadata(Metadata(md if md is not None else {{}}))
    m['tobs'] = out.length
    return m
'''.format(k=k, pp=pp, aa=aa, a=a)
SRC += '''
def fresh(data, tsamp, md):
    ts = TimeSeries(data, tsamp, metadata=md)
    return ts.data, ts.tsamp, ts.metadata, ts.metadata['tobs'], ts.length
'''
FIELDS = ('samples', 'sampling time', 'recorded duration', 'length')


def run(rep):
    s = Suite(rep, SRC)
    fresh = s.run(SPEC + '.fresh')
    ff = t.seq_elems(fresh.ret)
    for k in OPS:
        q = 'riptide.time_series.TimeSeries.' + k
        where = s.where(q)
        a, b, u = (s.run(SPEC + '.%s_%s' % (x, k)) for x in ('in', 'cp', 'un'))
        if a is None or b is None or u is None:
            rep.undecided('in-place = copying', k, where, s.last_error)
            continue
        ea, eb, eu = (t.seq_elems(s.value(x)) for x in (a, b, u))
        if ea is None or eb is None or eu is None:
            rep.undecided('in-place = copying', k, where, 'joined result')
            continue
        for i, f in enumerate(FIELDS):
            s.judge('in-place and copying forms give the same ' + f, '%s: %s' % (k, f), ea[i], [eb[i]], where)
        s.judge('in-place and copying forms refuse the same arguments', k + ': refusals', a.raise_cond(), [b.raise_cond()], where)
        s.judge('in-place form returns nothing', k + ': in-place return', ea[4], [t.NONE], where)
        s.judge('copying form returns a new object', k + ': new object', eb[4], [t.FALSE], where)
        for i, f in enumerate(('samples', 'sampling time', 'metadata', 'recorded duration', 'length')):
            g = t.lnot(u.raise_cond())
            s.judge('copying form leaves the original alone', '%s: original %s' % (k, f), eu[i], [t.assume(ff[i], g)], where)
        r = s.run(q, fixed={'inplace': t.FALSE}, flags=dict(keep_copies=True))
        if r is None:
            rep.undecided('copying form leaves the original alone', k + ': stores', where, s.last_error)
        else:
            bad = [(e.where, what, p, c) for e, what, kind, c, p in alias.writes(r) if alias.base_param(p) is t.mk('param', 'self')
                   and not (kind == 'aug' and not t.contains(p, t.attr(t.mk('param', 'self'), '_data'))) and not (kind == 'setattr' and p.op == 'param' and e.data['name'] not in ('_data', '_tsamp', 'metadata'))]
            rep.check(not bad, 'copying form leaves the original alone', k + ': stores', bad[0][0] if bad else where,
                      bad and '%s on %s when %s' % (bad[0][1], t.show(bad[0][2])[:100], t.show(bad[0][3])[:200]))
        m, rm = s.run(SPEC + '.md_' + k), s.run(SPEC + '.refmd_' + k)
        m2 = None
        if m is not None and rm is not None:
            md, ref = s.value(m), s.value(rm)
            if md.op == 'rec' and ref.op == 'rec':
                # the metadata content, whatever the object that holds it
                md, ref = dict(md.a[1]).get('$c', md), dict(ref.a[1]).get('$c', ref)
            s.judge('copying form carries the metadata of the original', k + ': metadata', md, [ref], where)
