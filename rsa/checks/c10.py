"""C10: which trials make a peak."""
from .. import terms as t
from . import peaks as P

EXPLANATION = (
    'find_peaks (with everything it calls in Python inlined, cluster1d kept symbolic: it is C11) is reduced to its '
    'value-flow normal form; the set of (width trial, period trial) pairs it makes peaks of and the threshold '
    'coefficients it returns are compared with the reference definition: segments of segwidth/T, median + nstd * IQR / '
    '1.349, polynomial of the requested degree in log f or the static minimum below minseg segments, strict comparison '
    'against both thresholds, clustering radius clrad / T, brightest member of each cluster.')
MINIMUM = 2


def run(rep):
    s, act, ref = P.load(rep)
    where = s.where(P.Q)
    if act is None:
        rep.undecided('peak selection', 'find_peaks', where, s.last_error)
        return
    pk, co = P.split(act, s)
    rpk, rco = P.split(ref, s)
    if pk is None:
        rep.undecided('peak selection', 'find_peaks', where, 'joined result')
        return

    def proj(x):
        def f(y):
            if y.op == 'rec' and y.a[0] == P.PEAK:
                d = dict(y.a[1])
                return t.seq([d.get('iw', t.NONE), d.get('ip', t.NONE)])
        return t.replace(P.unsort(x), f)
    s.judge('the trials that become peaks are those of the reference selection rule', 'find_peaks: (iw, ip) of the peaks', proj(pk),
            [proj(rpk)], where)
    s.judge('threshold coefficients per width trial', 'find_peaks: polycos', co, [rco], where)
