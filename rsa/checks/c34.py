"""C34: downsampling shares every input sample exactly once."""
from ..native import B, N, Native

EXPLANATION = (
    'From clang\'s typed syntax tree of the native sources: the stores of the downsampling kernel (offset and value as functions of the '
    'arguments, loops summarised) are compared with the overlap definition - first and last touched samples, interior sum and boundary '
    'weights - including the clamp of the last index; the number of output samples, the exported routine (allocation, arguments) and '
    'TimeSeries.downsample are compared with their references. That the weights of a cut sample add up to one is checked as an identity on '
    'the reference: the end weight of output k plus the start weight of output k+1.')
MINIMUM = 4

SRC = '''
import math
import cxx
import copy
import riptide
import riptide.libcpp as libcpp

def size(num_samples: cxx_uint, f: cxx_f64):
    return math.floor(num_samples / f)

def down(x: cxx_ptr, size: cxx_uint, f: cxx_f64, out: cxx_ptr):
    for k in range(math.floor(size / f)):
        lo = math.floor(k * f)
        hi = min(math.floor(k * f + f), size - 1)
        acc = (lo + 1 - k * f) * cxx.load(x, lo)
        for i in range(lo + 1, hi):
            acc = acc + cxx.load(x, i)
        cxx.store(out, acc + (k * f + f - hi) * cxx.load(x, hi), k)

def end_weight(k, f):
    return (k * f + f) - math.floor(k * f + f)

def start_weight(k, f):
    return 1 - (math.floor((k + 1) * f) + 1 - (k + 1) * f)

def bound(arr: cxx_arr, f: cxx_f64):
    n = arr.shape[0]
    riptide.native.check_downsampling_factor(n, f)
    m = riptide.native.downsampled_size(n, f)
    out = cxx.array([m], 'float')
    riptide.native.downsample(cxx.data(arr, 0), n, f, cxx.mutable_data(out, 0))
    return out
'''


def run(rep):
    s = Native(rep, SRC)
    s.kernel(N + '.downsampled_size', 'size', rule='floor(N/f) samples', parts=('ret',))
    s.kernel(N + '.downsample', 'down', rule='overlap-weighted sums', parts=('memory',), opaque=((N + '.check_downsampling_factor',), ()))
    s.driver('end_weight', 'start_weight', 'shared samples: weights add up to one', 'reference')
    s.kernel(B + '.downsample', 'bound', parts=('ret',), rule='exported routine downsamples its whole argument',
             opaque=((B + '.assert_c_contiguous', N + '.downsample', N + '.check_downsampling_factor'), (B + '.assert_c_contiguous', N + '.downsample'),))
    s.hidden()
