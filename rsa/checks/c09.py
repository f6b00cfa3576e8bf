"""C09: reported peaks are real trials."""
from .. import terms as t
from . import peaks as P

EXPLANATION = (
    'In the value-flow normal form of find_peaks every construction of a Peak is located; its frequency, period, width, '
    'duty cycle and S/N must be the normal forms of the periodogram entries selected by its own ip and iw (relational '
    'rule: freqs[ip], 1/freqs[ip], widths[iw], widths[iw]/foldbins[ip], snrs[ip, iw]), its DM that of the metadata. The '
    'list returned must be every such construction, unfiltered (nested collection over width trials and clusters), sorted '
    'by decreasing S/N.')
MINIMUM = 8


def run(rep):
    s, act, ref = P.load(rep)
    where = s.where(P.Q)
    if act is None:
        rep.undecided('peaks are real trials', 'find_peaks', where, s.last_error)
        return
    pk, _ = P.split(act, s)
    rpk, _ = P.split(ref, s)
    if pk is None:
        rep.undecided('peaks are real trials', 'find_peaks', where, 'joined result')
        return
    found = P.opened(pk, [])
    if not found:
        rep.undecided('peaks are real trials', 'find_peaks', where, 'no construction of a Peak found')
        return
    for k, p in enumerate(sorted(found, key=lambda x: x.dg)):
        d = dict(p.a[1])
        if not {'iw', 'ip'} <= set(d):
            rep.undecided('peaks are real trials', 'Peak construction', where, 'no trial indices')
            continue
        iw, ip = d['iw'], d['ip']
        r = s.run(P.SPEC + '.entry', types={'pgram': 'riptide.periodogram.Periodogram'}, fixed={'iw': iw, 'ip': ip})
        exp = {k.a[0]: t.seq_elems(v) for k, v in r.ret.a[0]}
        for fld, e in exp.items():
            s.judge('field of a peak belongs to its own trial', 'Peak.%s%s' % (fld, '' if len(found) == 1 else ' #%d' % k), d.get(fld, t.NONE), e, where)
    m = {}

    def blank(x, keep):
        def f(y):
            if y.op == 'rec' and y.a[0] == P.PEAK:
                return t.mk('param', 'PEAK')
        return t.replace(x, f)
    a, b = P.unsort(pk), P.unsort(rpk)

    def unfiltered(x):
        """collection over width trials of a collection over clusters, without condition"""
        while x.op in ('call', 'flat') and x.op == 'flat':
            x = x.a[0]
        n = 0
        while x.op == 'collect':
            if x.a[3] is not t.TRUE or x.a[1].op != 'len':
                return False
            x = x.a[2]
            n += 1
        return n == 2 and x.op == 'rec'
    if unfiltered(a):
        rep.holds('every cluster gives a peak that is returned', 'find_peaks: peaks', where)
    else:
        s.judge('every cluster gives a peak that is returned', 'find_peaks: peaks', blank(a, None), [blank(b, None)], where)
    if pk.op == 'sorted':
        key = lambda x: t.seq(list(x.a[1:])) if x.op == 'sorted' else t.NONE
        s.judge('peaks are sorted by decreasing S/N', 'find_peaks: order', key(pk), [key(rpk)], where)
    elif pk.op in ('collect', 'flat'):
        rep.violated('peaks are sorted by decreasing S/N', 'find_peaks: order', where, 'the returned list is not sorted')
    else:
        s.judge('peaks are sorted by decreasing S/N', 'find_peaks: order', blank(pk, None), [blank(rpk, None)], where)
