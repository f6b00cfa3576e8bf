"""C29: the harmonic test compares the documented distances."""
from ..spec import Suite

EXPLANATION = (
    'The normal form of riptide.pipeline.harmonic_testing.htest, with its diagnostics inlined, is compared with the documented '
    'formulas for arbitrary candidates and maxima: phase drift, dispersion delay and S/N distances, the bounded fraction, its '
    'orientation, and the conjunction of the three comparisons.')
MINIMUM = 3

SRC = '''
from fractions import Fraction

def ref(F, H, tobs, fmin, fmax, denom_max, phase_distance_max, dm_distance_max, snr_distance_max):
    if not fmax > fmin:
        raise ValueError
    if not tobs > 0.0:
        raise ValueError
    slow, fast = sorted((F, H), key=lambda x: x.freq)
    frac = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)
    phase = abs(frac * slow.freq - fast.freq) * tobs / fast.ducy
    out = 1 / frac if H == slow else frac
    delay = abs(F.dm - H.dm) * 4.15e3 * abs(fmin ** -2 - fmax ** -2)
    dm = delay / min(F.ducy / F.freq, H.ducy / H.freq)
    snr = abs(H.snr - F.snr / (out.numerator * out.denominator) ** 0.5)
    return phase <= phase_distance_max and dm <= dm_distance_max and snr <= snr_distance_max, out

def ref_order(F, H, tobs, fmin, fmax, denom_max, phase_distance_max, dm_distance_max, snr_distance_max):
    if not fmax > fmin:
        raise ValueError
    if not tobs > 0.0:
        raise ValueError
    slow, fast = sorted((F, H), key=lambda x: x.freq)
    frac = Fraction(fast.freq / slow.freq).limit_denominator(denom_max)
    phase = abs(frac * slow.freq - fast.freq) * tobs / fast.ducy
    out = 1 / frac if H.freq < F.freq else frac
    delay = abs(F.dm - H.dm) * 4.15e3 * abs(fmin ** -2 - fmax ** -2)
    dm = delay / min(F.ducy / F.freq, H.ducy / H.freq)
    snr = abs(H.snr - F.snr / (out.numerator * out.denominator) ** 0.5)
    return phase <= phase_distance_max and dm <= dm_distance_max and snr <= snr_distance_max, out
'''


def run(rep):
    from .. import terms as t
    s = Suite(rep, SRC)
    q = 'riptide.pipeline.harmonic_testing.htest'
    act, (ref, ref2) = s.pair(q, ['ref', 'ref_order'])
    where = s.where(q)
    # the two candidates are different peaks (for equal ones the fraction is 1 either way)
    apart = t.lnot(t.eq(t.mk('param', 'F'), t.mk('param', 'H')))
    if act is None:
        rep.undecided('documented distances', 'htest', where, s.last_error)
        return
    a, b, c = [t.seq_elems(s.value(x)) for x in (act, ref, ref2)]
    if a is None or len(a) != 2:
        s.judge('documented distances', 'htest: result', s.value(act), [s.value(ref), s.value(ref2)], where)
    else:
        s.judge('related iff the three distances are within their maxima', 'htest: related', t.truth(a[0]), [t.truth(b[0]), t.truth(c[0])], where, apart)
        s.judge('ratio of the second to the first frequency', 'htest: fraction', a[1], [b[1], c[1]], where, apart)
    s.judge('refusals', 'htest: refusals', act.raise_cond(), [ref.raise_cond()], where)
