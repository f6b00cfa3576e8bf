"""C04: arguments outside the documented domain are refused up front."""
from .. import terms as t
from ..native import B, N, Native
from ..spec import SPEC, decide

EXPLANATION = (
    'For every routine with a documented argument domain the analysis computes, without running it, the condition under which a call ends '
    'in an exception (native routines through clang\'s typed syntax tree, python ones through the ast; helpers expanded, loops over the '
    'trial widths summarised as "any width such that") and compares it with the documented domain: every boundary, each parameter. For '
    'exported native routines the contiguity test is set aside (C01) and the condition is that of the whole call, wherever in the call '
    'tree the test is made. The comparison goes both ways: a domain that is too wide or too narrow is a violation.')
MINIMUM = 10

SRC = '''
import cxx
import math
import numpy as np
import riptide

# ---- native

def stdnoise(x: cxx_f32):
    if x <= 0:
        raise ValueError

def widths(w: cxx_ptru, n: cxx_uint, bins: cxx_uint):
    for i in range(n):
        if cxx.load(w, i) <= 0 or cxx.load(w, i) >= bins:
            raise ValueError

def widths_some(w: cxx_ptru, n: cxx_uint, bins: cxx_uint):
    if n == 0:
        raise ValueError
    for i in range(n):
        if cxx.load(w, i) <= 0 or cxx.load(w, i) >= bins:
            raise ValueError

def factor(size: cxx_uint, f: cxx_f64):
    if f <= 1 or f > size:
        raise ValueError

def search(size: cxx_uint, tsamp: cxx_f64, pmin: cxx_f64, pmax: cxx_f64, bmin: cxx_uint, bmax: cxx_uint):
    if tsamp <= 0 or pmin <= 0 or pmax <= pmin or bmin < 2 or bmax < bmin or pmin < tsamp * bmin:
        raise ValueError

def median(x: cxx_ptr, size: cxx_uint, width: cxx_uint, out: cxx_ptr):
    if width % 2 == 0 or width >= size:
        raise ValueError

# ---- exported
def x_snr1(x: cxx_arr, w: cxx_arru, s: cxx_f32):
    if s <= 0:
        raise ValueError
    riptide.native.check_trial_widths(cxx.data(w, 0), w.shape[0], x.shape[0])

def x_snr1_own(x: cxx_arr, w: cxx_arru, s: cxx_f32):
    if s <= 0:
        raise ValueError
    for i in range(w.shape[0]):
        if cxx.load(cxx.data(w, 0), i) <= 0 or cxx.load(cxx.data(w, 0), i) >= x.shape[0]:
            raise ValueError

def x_snr2(x: cxx_arr, w: cxx_arru, s: cxx_f32):
    if s <= 0:
        raise ValueError
    riptide.native.check_trial_widths(cxx.data(w, 0), w.shape[0], x.shape[1])

def x_snr2_own(x: cxx_arr, w: cxx_arru, s: cxx_f32):
    if s <= 0:
        raise ValueError
    for i in range(w.shape[0]):
        if cxx.load(cxx.data(w, 0), i) <= 0 or cxx.load(cxx.data(w, 0), i) >= x.shape[1]:
            raise ValueError

def x_down(x: cxx_arr, f: cxx_f64):
    if f <= 1 or f > x.shape[0]:
        raise ValueError

def x_search(x: cxx_arr, tsamp: cxx_f64, w: cxx_arru, pmin: cxx_f64, pmax: cxx_f64, bmin: cxx_uint, bmax: cxx_uint):
    if tsamp <= 0 or pmin <= 0 or pmax <= pmin or bmin < 2 or bmax < bmin or pmin < tsamp * bmin:
        raise ValueError
    riptide.native.check_trial_widths(cxx.data(w, 0), w.shape[0], bmin)

def x_search_own(x: cxx_arr, tsamp: cxx_f64, w: cxx_arru, pmin: cxx_f64, pmax: cxx_f64, bmin: cxx_uint, bmax: cxx_uint):
    if tsamp <= 0 or pmin <= 0 or pmax <= pmin or bmin < 2 or bmax < bmin or pmin < tsamp * bmin:
        raise ValueError
    for i in range(w.shape[0]):
        if cxx.load(cxx.data(w, 0), i) <= 0 or cxx.load(cxx.data(w, 0), i) >= bmin:
            raise ValueError

def x_median(x: cxx_arr, width: cxx_uint):
    if width % 2 == 0 or width >= x.shape[0]:
        raise ValueError

# ---- python
def ffa1(data, p):
    if data.ndim != 1 or not isinstance(p, int) or p <= 0 or p > data.size:
        raise ValueError

def ffa1_lax(data, p):
    if data.ndim != 1 or p <= 0 or p > data.size:
        raise ValueError

def ffafreq(N, p, dt=1.0):
    if not isinstance(N, int) or not isinstance(p, int) or N <= 0 or p <= 1 or N < p or dt <= 0:
        raise ValueError

def ffafreq_lax(N, p, dt=1.0):
    if N <= 0 or p <= 1 or N < p or dt <= 0:
        raise ValueError

def fold(ts, period, bins, subints=None):
    if period > ts.length or period / bins <= ts.tsamp:
        raise ValueError
    if subints is not None:
        if int(subints) < 1 or int(subints) > ts.length / period:
            raise ValueError

def fast(data, width_samples, min_points=101):
    if min_points % 2 == 0:
        raise ValueError

def vertical(X, factor):
    if factor <= 1 or factor >= X.shape[0]:
        raise ValueError
'''
C = 'refused exactly outside the documented domain'


def exported(s, rep, py, qual, specs, opaques):
    """the condition under which the whole call is refused, for C-contiguous arrays"""
    from .c01 import flagged
    subject = 'libcpp.' + py
    if qual is None:
        rep.undecided(C, subject, 'riptide/cpp/python_bindings.cpp', 'exported function not found')
        return
    best = None
    for op in opaques:
        a, sp = s.twins(qual, specs, op)
        if a is None:
            best = best or ('undecided', s.last_error)
            continue
        renamed = a.ev.flags.get('rename', {}) if hasattr(a.ev, 'flags') else {}

        def cond(r):
            rc = r.raise_cond()
            for arr in {x.a[0] for x in t.subterms(rc) if x.op == 'attr' and x.a[1] == 'flags'}:
                rc = flagged(rc, arr, 0x505)
            return rc
        v = decide(cond(a), [cond(x) for x in sp], None)
        if best is None or v[0] == 'holds' or (v[0] == 'undecided' and best[0] == 'violated'):
            best = v
        if v[0] == 'holds':
            break
    getattr(rep, best[0])(C, subject, s.at(qual), *([best[1]] if best[0] != 'holds' else []))


def run(rep):
    s = Native(rep, SRC)
    k = lambda name, refs, **kw: s.kernel(N + '.' + name, refs, parts=('raises',), rule=C, **kw)
    k('check_stdnoise', 'stdnoise')
    k('check_trial_widths', ['widths_some', 'widths'])
    k('check_downsampling_factor', 'factor')
    k('periodogram_check_arguments', 'search')
    k('running_median', 'median', opaque=((N + '.RunningMedian.push',), ()))
    ex = {py: q for py, (q, *_) in s.front.exports.items()}
    heavy = tuple(N + '.' + x for x in ('transform__5', 'transform__3', 'snr1', 'snr2', 'circular_prefix_sum', 'downsampled_variance', 'RunningMedian.push'))
    w = (N + '.check_trial_widths',)
    for py, refs in (('snr1', ['x_snr1', 'x_snr1_own']), ('snr2', ['x_snr2', 'x_snr2_own']), ('downsample', ['x_down']), ('periodogram', ['x_search', 'x_search_own']), ('running_median', ['x_median'])):
        big = heavy + ((N + '.downsample',) if py != 'downsample' else ())
        exported(s, rep, py, ex.get(py), refs, (big + (N + '.periodogram',), big))
    s.fn('riptide.libffa.ffa1', ['ffa1', 'ffa1_lax'], rule=C, parts=('raises',))
    s.fn('riptide.libffa.ffafreq', ['ffafreq', 'ffafreq_lax'], rule=C, parts=('raises',))
    s.fn('riptide.folding.fold', ['fold'], rule=C, parts=('raises',), opaque=('riptide.folding.downsample_vertical', 'riptide.time_series.TimeSeries.downsample'))
    s.fn('riptide.running_medians.fast_running_median', ['fast'], rule=C, parts=('raises',))
    s.fn('riptide.folding.downsample_vertical', ['vertical'], rule=C, parts=('raises',))
    s.hidden()
