"""C31: the fast running median stays aligned with the data."""
from .. import terms as t
from ..spec import SPEC, Suite

EXPLANATION = (
    'fast_running_median is reduced to its value-flow normal form and compared with the reference (block factor, number '
    'of whole blocks, block means, exact median of min_points blocks, block centres (k + 1/2) f - 1/2, interpolation onto '
    'every sample index); TimeSeries.deredden must subtract exactly that, evaluated with the window rounded to the nearest '
    'sample. In the native sources the median object is replaced by a recorder: the samples pushed before each output are then a '
    'sequence of segments affine in the loop indices, and each output must be taken when the last 2h+1 of them are the samples k-h..k+h '
    'clamped to the ends of the data (proved by comparing coefficients for every h and length; a difference is confirmed on a small instance '
    'of the closed forms). The push method must put the sample at the write position, advance it cyclically and select rank h of a copy of '
    'the ring; the selection algorithm itself is not claimed.')
MINIMUM = 18

SRC = '''
import numpy as np
from riptide.running_medians import running_median
from riptide.time_series import TimeSeries

def fast(data, width_samples, min_points=101):
    if not (min_points % 2):
        raise ValueError("odd")
    f = int(max(1, width_samples / float(min_points)))
    if f == 1:
        return running_median(data, width_samples)
    n = data.size // f
    low = data[:n * f].reshape(n, f).mean(axis=1)
    med = running_median(low, min_points)
    x = f * np.arange(n) + 0.5 * (f - 1)
    return np.interp(np.arange(data.size), x, med)

def fast_m1(data, width_samples, min_points=101):
    if not (min_points % 2):
        raise ValueError("odd")
    f = int(max(1, width_samples / float(min_points)))
    if f == 1:
        return running_median(data, width_samples)
    n = data.size // f
    low = data[:n * f].reshape(-1, f).mean(axis=1)
    med = running_median(low, min_points)
    x = np.arange(low.size) * f + 0.5 * (f - 1)
    return np.interp(np.arange(data.size), x, med)

def dered(data, tsamp, md, width, minpts):
    ts = TimeSeries(data, tsamp, metadata=md)
    return ts.deredden(width, minpts=minpts).data

def dered_ref(data, tsamp, md, width, minpts):
    x = np.asarray(data, dtype=np.float32)
    r = fast(x, int(round(width / float(tsamp))), minpts)
    return np.asarray(x - r, dtype=np.float32)

def dered_ref2(data, tsamp, md, width, minpts):
    x = np.asarray(data, dtype=np.float32)
    r = fast_m1(x, int(round(width / float(tsamp))), minpts)
    return np.asarray(x - r, dtype=np.float32)
'''


def run(rep):
    s = Suite(rep, SRC)
    op = dict(opaque=('riptide.running_medians.running_median',))
    s.fn('riptide.running_medians.fast_running_median', ['fast', 'fast_m1'], **op)
    q = 'riptide.time_series.TimeSeries.deredden'
    where = s.where(q)
    a = s.run(SPEC + '.dered', **op)
    refs = [s.run(SPEC + '.' + n, **op) for n in ('dered_ref', 'dered_ref2')]
    if a is None:
        rep.undecided('deredden subtracts the fast running median', 'TimeSeries.deredden', where, s.last_error)
        return
    s.judge('deredden subtracts the fast running median over the window in samples', 'TimeSeries.deredden', s.value(a),
            [s.value(r) for r in refs], where)
    from . import rmed
    rmed.run(rep)
