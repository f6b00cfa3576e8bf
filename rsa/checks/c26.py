"""C26: folding."""
from .. import terms as t
from . import pipe
from ..spec import SPEC, Suite

EXPLANATION = (
    'TimeSeries.fold (with riptide.folding.fold and everything it calls in Python inlined) is reduced to its value-flow '
    'normal form and compared with the reference: downsampling factor (period/bins)/tsamp, m = number of whole periods in '
    'the downsampled data, reshape (m, bins) of exactly m*bins samples, scaling (m * factor)^-1/2, 1-D sum for one '
    'sub-integration or one period, and vertical downsampling of each phase bin by m/subints (nudged down when rounding '
    'would lose a row) otherwise. Candidate.from_pipeline_output must fold with the requested sub-integrations, or all '
    'periods when they do not fit. The comparison with a given number of sub-integrations is repeated with quotients of '
    'whole numbers kept as rounded operations.')
MINIMUM = 4

SRC = '''
import numpy as np
from riptide.time_series import TimeSeries
from riptide.libffa import downsample
from riptide.candidate import Candidate

def real(data, tsamp, period, bins, subints):
    return TimeSeries(data, tsamp).fold(period, bins, subints=subints)

def ref(data, tsamp, period, bins, subints):
    ts = TimeSeries(data, tsamp)
    factor = period / bins / ts.tsamp
    x = downsample(ts.data, factor)
    m = x.size // bins
    g = x[:m * bins].reshape(m, bins) * (m * factor) ** -0.5
    if subints is None:
        return g.sum(axis=0) if m == 1 else g
    if subints < 1 or int(subints) > ts.length / period:
        raise ValueError
    n = int(subints)
    if n == 1 or m == 1:
        return g.sum(axis=0)
    if n == m:
        return g
    v = m / n
    if int(m / v) < n:
        v = np.nextafter(v, 0.0)
    out = np.asarray([downsample(col, v) for col in g.T])
    return out.T

def made(ts, cl, bins, subints):
    return Candidate.from_pipeline_output(ts, cl, bins, subints=subints)

def lengths(ts, cl, bins, subints):
    p = cl.centre.period
    return ts.fold(p, bins, subints=None if subints is not None and subints * p >= ts.length else subints)

def lengths_strict(ts, cl, bins, subints):
    p = cl.centre.period
    return ts.fold(p, bins, subints=None if subints is not None and subints * p > ts.length else subints)

def counts(ts, cl, bins, subints):
    p = cl.centre.period
    return ts.fold(p, bins, subints=None if subints is not None and subints > int(ts.length / p) else subints)

def domain(data, tsamp, period, bins):
    # period <= length, hence nsamp / factor >= bins: at least one whole period is left
    ts = TimeSeries(data, tsamp)
    x = downsample(ts.data, period / bins / ts.tsamp)
    return x.size // bins >= 1
'''


def run(rep):
    s = Suite(rep, SRC)
    op = dict(opaque=('riptide.libffa.downsample',))
    q = 'riptide.folding.fold'
    where = s.where(q)
    a = s.run(SPEC + '.real', **op)
    r = s.run(SPEC + '.ref', **op)
    if a is None:
        rep.undecided('folding', 'fold', where, s.last_error)
    else:
        g = t.land(t.lnot(a.raise_cond()), s.value(s.run(SPEC + '.domain', **op)))
        for nm, lit in (('subints=None', t.isnone(t.mk('param', 'subints'))), ('subints given', t.lnot(t.isnone(t.mk('param', 'subints'))))):
            s.judge('folded array equals the reference', 'TimeSeries.fold, ' + nm, t.assume(t.assume(s.value(a), lit), g),
                    [t.assume(t.assume(r.ret, lit), g)], where, t.land(lit, g))

    # the quotient of two whole numbers as it is rounded: floor(m / (m / n)) can be n - 1
    a, r = [s.run(SPEC + '.' + n, flags=dict(rounded_ratios=True), **op) for n in ('real', 'ref')]
    if a is None or r is None:
        rep.undecided('rows of the folded array survive rounding', 'fold', where, s.last_error)
    else:
        lit = t.lnot(t.isnone(t.mk('param', 'subints')))
        s.judge('rows of the folded array survive rounding', 'TimeSeries.fold, subints given', t.assume(t.assume(s.value(a), lit), g),
                [t.assume(t.assume(r.ret, lit), g)], where, t.land(lit, g))

    # a candidate that asks for more than there is
    q = pipe.CAND + '.from_pipeline_output'
    op = dict(types={'ts': pipe.TS, 'cl': pipe.PC}, opaque=tuple(o for o in pipe.OPAQUE if o != q))
    a = s.run(SPEC + '.made', **op)
    rule = 'all periods when the sub-integrations asked for do not fit'
    if a is None:
        rep.undecided(rule, 'Candidate.from_pipeline_output', s.where(q), s.last_error)
        return
    v = a.ev.getattr(a.raw, 'subints', a.state, None)
    s.judge(rule, 'Candidate.from_pipeline_output: sub-integrations', v,
            [s.value(s.run(SPEC + '.' + n, **op)) for n in ('lengths', 'lengths_strict', 'counts')], s.where(q))
