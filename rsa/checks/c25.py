"""C25: trial period and S/N formulas are those documented."""
from .. import terms as t
from ..native import B, N, Native, memory

EXPLANATION = (
    'From clang\'s typed syntax tree: the value the native search stores for every trial period is compared, as a rational function of sampling '
    'time, bins, periods folded and shift, with t p^2 / (p - s/(m-1)) and with the reciprocal of what ffafreq/ffaprd return for the same '
    'transform; the S/N kernel, the circular prefix sum and the maximum over starting bins are compared with the zero-mean unit-square-sum '
    'boxcar response; noise level, variance after downsampling and the arguments with which the search calls the S/N kernel are compared '
    'with their references.')
MINIMUM = 8

SRC = '''
import math
import numpy as np
import cxx
import riptide
import riptide.libcpp as libcpp
from riptide.native import BlockTemplate

def prefix(x: cxx_ptr, size: cxx_uint, nsum: cxx_uint, out: cxx_ptr):
    acc = 0
    for j in range(min(size, nsum)):
        acc = acc + cxx.load(x, j)
        cxx.store(out, acc, j)
    if nsum <= size:
        return
    q = nsum // size
    for i in range(1, q):
        riptide.native.add_scalar(out, size, i * acc, cxx.padd(out, i * size))
    riptide.native.add_scalar(out, nsum % size, q * acc, cxx.padd(out, q * size))

def addsc(x: cxx_ptr, size: cxx_uint, a: cxx_f32, out: cxx_ptr):
    for i in range(size):
        cxx.store(out, cxx.load(x, i) + a, i)

def dmax(x: cxx_ptr, y: cxx_ptr, size: cxx_uint):
    best = cxx.load(x, 0) - cxx.load(y, 0)
    for i in range(1, size):
        d = cxx.load(x, i) - cxx.load(y, i)
        if d > best:
            best = d
    return best

def dmax_all(x: cxx_ptr, y: cxx_ptr, size: cxx_uint):
    best = cxx.load(x, 0) - cxx.load(y, 0)
    for i in range(size):
        best = max(best, cxx.load(x, i) - cxx.load(y, i))
    return best

def snr1(x: cxx_ptr, p: cxx_uint, widths: cxx_ptr, nw: cxx_uint, stdnoise: cxx_f32, out: cxx_ptr):
    wmax = max(cxx.load(widths, j) for j in range(nw))
    c = cxx.new(p + wmax, 'float')
    riptide.native.circular_prefix_sum(x, p, p + wmax, c)
    total = cxx.load(c, p - 1)
    for i in range(nw):
        w = cxx.load(widths, i)
        # height h inside the boxcar, -b outside: zero mean, unit square sum
        h = math.sqrt((p - w) / (p * w))
        b = w * h / (p - w)
        on = riptide.native.diff_max(cxx.padd(c, w), c, p)
        cxx.store(out, (h * on - b * (total - on)) / stdnoise, i)

def zero_mean(p, w):
    h = math.sqrt((p - w) / (p * w))
    return w * h - (p - w) * (w * h / (p - w))

def zero(p, w):
    return 0

def square_sum(p, w):
    h = math.sqrt((p - w) / (p * w))
    return w * h ** 2 + (p - w) * (w * h / (p - w)) ** 2

def unit(p, w):
    return 1

def snr2(block: cxx_class_BlockTemplate, widths: cxx_ptr, nw: cxx_uint, stdnoise: cxx_f32, out: cxx_ptr):
    for i in range(block.rows):
        riptide.native.snr1(block.rowptr(i), block.cols, widths, nw, stdnoise, cxx.padd(out, i * nw))

def variance(num_samples: cxx_uint, f: cxx_f64):
    k = math.floor(f)
    r = f - k
    x = math.floor(num_samples / f) * r
    if x > 1:
        return f - 1 / 3
    return k - 1 + (2 / 3 * x ** 2 - x + 1)

def plan(data: cxx_ptr, size: cxx_uint, tsamp: cxx_f64, widths: cxx_ptr, nw: cxx_uint, period_min: cxx_f64, period_max: cxx_f64, bins_min: cxx_uint,
         bins_max: cxx_uint, periods: cxx_ptr, foldbins: cxx_ptr, snr: cxx_ptr):
    riptide.native.periodogram_check_arguments(size, tsamp, period_min, period_max, bins_min, bins_max)
    f0 = period_min / (tsamp * bins_min)
    g = (bins_max + 1) / bins_min
    nd = math.ceil(math.log(period_max / period_min) / math.log(g))
    size0 = riptide.native.downsampled_size(size, f0)
    mem = cxx.new(size0, 'float')
    buf = cxx.new(size0, 'float')
    res = cxx.new(size0, 'float')
    base = 0
    for ids in range(nd):
        f = f0 * g ** ids
        tau = f * tsamp
        pmax = period_max / tau
        n = riptide.native.downsampled_size(size, f)
        if n < bins_min:
            break
        if f == 1:
            src = data
        else:
            riptide.native.downsample(data, size, f, mem)
            src = mem
        for bins in range(bins_min, min(bins_max, n, math.floor(pmax)) + 1):
            rows = n // bins
            noise = math.sqrt(rows * riptide.native.downsampled_variance(size, f))
            last = min(pmax, bins + 1)
            keep = min(rows, math.ceil(bins * (rows - 1) * (1 - bins / last)))
            riptide.native.transform__5(src, rows, bins, buf, res)
            riptide.native.snr2(BlockTemplate(res, keep, bins), widths, nw, noise, cxx.padd(snr, base * nw))
            for s in range(keep):
                cxx.store(periods, tau * bins ** 2 / (bins - s / (rows - 1)), base + s)
                cxx.store(foldbins, bins, base + s)
            base = base + keep

def freqs(N, p, dt=1.0):
    m = N // p
    f0 = 1 / p
    if m == 1:
        return np.asarray([f0]) / dt
    s = np.arange(m)
    return (f0 - s / (m - 1.0) * f0 ** 2) / dt

def prds(N, p, dt=1.0):
    m = N // p
    if m == 1:
        return 1.0 / (np.asarray([1.0 / p]) / dt)
    s = np.arange(m)
    return 1.0 / ((1.0 / p - s / (m - 1.0) / p ** 2) / dt)

def boxcar(data, widths, stdnoise=1.0):
    w = np.asarray(widths, dtype=np.uint64)
    b = data.shape[-1]
    snr = libcpp.snr2(data.reshape(-1, b).astype(np.float32), w, stdnoise)
    return snr.reshape(list(data.shape[:-1]) + [w.size])

def snr2_bound(arr: cxx_arr, arr_w: cxx_arr, stdnoise: cxx_f32):
    rows = arr.shape[0]
    cols = arr.shape[1]
    nw = arr_w.shape[0]
    riptide.native.check_stdnoise(stdnoise)
    riptide.native.check_trial_widths(cxx.data(arr_w, 0), nw, cols)
    out = cxx.array([rows, nw], 'float')
    riptide.native.snr2(BlockTemplate(cxx.data(arr, 0, 0), rows, cols), cxx.data(arr_w, 0), nw, stdnoise, cxx.mutable_data(out, 0, 0))
    return out

def snr1_bound(arr: cxx_arr, arr_w: cxx_arr, stdnoise: cxx_f32):
    nw = arr_w.shape[0]
    n = arr.shape[0]
    riptide.native.check_stdnoise(stdnoise)
    riptide.native.check_trial_widths(cxx.data(arr_w, 0), nw, n)
    out = cxx.array([nw], 'float')
    riptide.native.snr1(cxx.data(arr, 0), n, cxx.data(arr_w, 0), nw, stdnoise, cxx.mutable_data(out, 0))
    return out

def trial(m: cxx_uint, p: cxx_uint, tau: cxx_f64, s: cxx_uint):
    return tau * p ** 2 / (p - s / (m - 1))

def recip(m: cxx_uint, p: cxx_uint, tau: cxx_f64, s: cxx_uint):
    return 1 / ((1 / p - s / (m - 1) * (1 / p) ** 2) / tau)
'''


def run(rep):
    s = Native(rep, SRC)
    k = s.kernel
    rule = 'boxcar response'
    k(N + '.add_scalar', 'addsc', rule='circular prefix sum', parts=('memory',))
    k(N + '.circular_prefix_sum', 'prefix', rule='circular prefix sum', parts=('memory',), opaque=((N + '.add_scalar',),))
    k(N + '.diff_max', ['dmax', 'dmax_all'], rule='largest over every starting bin', parts=('ret',))
    k(N + '.snr1', 'snr1', rule=rule, parts=('memory',), opaque=((N + '.circular_prefix_sum', N + '.diff_max'), (N + '.circular_prefix_sum',)))
    k(N + '.snr2', 'snr2', rule='one row of S/N per profile', parts=('memory',), opaque=((N + '.snr1',),))
    s.driver('zero_mean', 'zero', rule, 'reference boxcar has zero mean')
    s.driver('square_sum', 'unit', rule, 'reference boxcar has unit square sum')
    rule = 'noise level'
    k(N + '.downsampled_variance', 'variance', rule=rule, parts=('ret',))
    rule = 'trial periods'
    ops = (N + '.transform__5', N + '.snr2', N + '.downsample', N + '.downsampled_variance', N + '.periodogram_check_arguments')
    k(N + '.periodogram', 'plan', rule='trials, noise level and arguments of every S/N evaluation', parts=('memory',), opaque=(ops, ops + (N + '.downsampled_size',)))
    s.driver('trial', 'recip', rule, 'reference trial period is the reciprocal of the trial frequency')
    s.fn('riptide.libffa.ffafreq', ['freqs'], rule=rule, parts=('ret',))
    s.fn('riptide.libffa.ffaprd', ['prds'], rule=rule, parts=('ret',))
    rule = 'exported routine and its wrapper'
    chk = (B + '.assert_c_contiguous', B + '.assert_c_contiguous__T2', N + '.check_stdnoise', N + '.check_trial_widths')
    for q, ref in (('snr1', 'snr1_bound'), ('snr2', 'snr2_bound')):
        k(B + '.' + q, ref, rule=rule, parts=('ret',), opaque=(chk + (N + '.' + q,), chk[:2] + (N + '.' + q,)))
    s.fn('riptide.libffa.boxcar_snr', ['boxcar'], rule=rule, parts=('ret',))
    s.hidden()
