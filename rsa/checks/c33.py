"""C33: the FFA transform adds every period exactly once along each drift."""
from .. import terms as t
from ..native import B, N, Native

EXPLANATION = (
    'The native sources are read through clang\'s typed syntax tree; for each kernel the analysis computes, without running it, the list of '
    'every store it makes (offset and value as functions of the arguments, loops summarised) and compares it with a reference definition: '
    'element-wise sum, rotation-and-sum, row addressing and the head/tail split of a block (together the split must contain every row '
    'exactly once), the row selection and rotation of the merge, the recursion, the public two-dimensional entry and the python '
    'one-dimensional wrapper. Stores are compared as functions, so renamed variables, other loop forms or helper functions do not matter; '
    'a kernel written with other loops is reported undecided.')
MINIMUM = 8

SRC = '''
import math
import cxx
import numpy as np
import riptide
import riptide.libcpp as libcpp
from riptide.native import BlockTemplate

def add(x: cxx_ptr, y: cxx_ptr, size: cxx_uint, z: cxx_ptr):
    for i in range(size):
        cxx.store(z, cxx.load(x, i) + cxx.load(y, i), i)

def rolladd(x: cxx_ptr, y: cxx_ptr, size: cxx_uint, shift: cxx_uint, z: cxx_ptr):
    p = shift % size
    for i in range(size - p):
        cxx.store(z, cxx.load(x, i) + cxx.load(y, i + p), i)
    for i in range(p):
        cxx.store(z, cxx.load(x, size - p + i) + cxx.load(y, i), size - p + i)

def rolladd_one(x: cxx_ptr, y: cxx_ptr, size: cxx_uint, shift: cxx_uint, z: cxx_ptr):
    for i in range(size):
        cxx.store(z, cxx.load(x, i) + cxx.load(y, (i + shift) % size), i)

def rolladd_two(x: cxx_ptr, y: cxx_ptr, size: cxx_uint, shift: cxx_uint, z: cxx_ptr):
    p = shift % size
    for i in range(size):
        cxx.store(z, cxx.load(x, i) + cxx.load(y, (i + p) % size), i)

def rolladd_three(x: cxx_ptr, y: cxx_ptr, size: cxx_uint, shift: cxx_uint, z: cxx_ptr):
    p = shift % size
    q = size - p
    for i in range(size):
        cxx.store(z, cxx.load(x, i) + (cxx.load(y, i + p) if i < q else cxx.load(y, i - q)), i)

def rollback(x: cxx_ptr, size: cxx_uint, shift: cxx_uint, out: cxx_ptr):
    p = shift % size
    for i in range(size - p):
        cxx.store(out, cxx.load(x, i + p), i)
    for i in range(p):
        cxx.store(out, cxx.load(x, i), size - p + i)

def rollback_one(x: cxx_ptr, size: cxx_uint, shift: cxx_uint, out: cxx_ptr):
    for i in range(size):
        cxx.store(out, cxx.load(x, (i + shift) % size), i)

def rollback_two(x: cxx_ptr, size: cxx_uint, shift: cxx_uint, out: cxx_ptr):
    p = shift % size
    for i in range(size):
        cxx.store(out, cxx.load(x, (i + p) % size), i)

def head(b: cxx_class_BlockTemplate):
    return b.head()

def head_ref(b: cxx_class_BlockTemplate):
    return BlockTemplate(b.rowptr(0), b.rows // 2, b.cols)

def tail(b: cxx_class_BlockTemplate):
    return b.tail()

def tail_ref(b: cxx_class_BlockTemplate):
    h = b.rows // 2
    return BlockTemplate(b.rowptr(h), b.rows - h, b.cols)

def row(b: cxx_class_BlockTemplate, k: cxx_uint):
    return cxx.load(b.rowptr(k), 0)

def row_ref(b: cxx_class_BlockTemplate, k: cxx_uint):
    return cxx.load(b.rowptr(0), k * b.cols)

def split(b: cxx_class_BlockTemplate):
    return (b.head().rows + b.tail().rows, b.head().cols, b.tail().cols)

def split_ref(b: cxx_class_BlockTemplate):
    return (b.rows, b.cols, b.cols)

def merge(thead: cxx_class_BlockTemplate, ttail: cxx_class_BlockTemplate, out: cxx_class_BlockTemplate):
    m = out.rows
    p = out.cols
    for s in range(m):
        h = math.floor((thead.rows - 1) * s / (m - 1) + 0.5)
        k = math.floor((ttail.rows - 1) * s / (m - 1) + 0.5)
        # drift of the head row plus the drift between the parts: s - drift of the tail row
        riptide.native.fused_rollback_add(thead.rowptr(h), ttail.rowptr(k), p, s - k, out.rowptr(s))

def transform(input: cxx_class_BlockTemplate, temp: cxx_class_BlockTemplate, out: cxx_class_BlockTemplate):
    m = input.rows
    p = input.cols
    if m == 2:
        riptide.native.add(input.rowptr(0), input.rowptr(1), p, out.rowptr(0))
        riptide.native.fused_rollback_add(input.rowptr(0), input.rowptr(1), p, 1, out.rowptr(1))
    elif m == 1:
        cxx.copy(out.rowptr(0), input.rowptr(0), p)
    else:
        riptide.native.transform__3(input.head(), out.head(), temp.head())
        riptide.native.transform__3(input.tail(), out.tail(), temp.tail())
        riptide.native.merge(temp.head(), temp.tail(), out)

def entry(input: cxx_ptr, rows: cxx_uint, cols: cxx_uint, temp: cxx_ptr, out: cxx_ptr):
    riptide.native.transform__3(BlockTemplate(input, rows, cols), BlockTemplate(temp, rows, cols), BlockTemplate(out, rows, cols))
    return BlockTemplate(out, rows, cols)

def ffa2(arr: cxx_arr):
    rows = arr.shape[0]
    cols = arr.shape[1]
    output = cxx.array([rows, cols], 'float')
    riptide.native.transform__5(cxx.data(arr, 0, 0), rows, cols, cxx.new(rows * cols, 'float'), cxx.mutable_data(output, 0, 0))
    return output

def py_ffa2(data):
    return libcpp.ffa2(data)

def py_ffa2_cast(data):
    return libcpp.ffa2(np.asarray(data, dtype=np.float32))

def py_ffa2_cast2(data):
    return libcpp.ffa2(np.asarray(data))

def py_ffa1(data, p):
    n = len(data)
    m = n // p
    return libcpp.ffa2(data[:m * p].reshape(m, p))
'''


def run(rep):
    s = Native(rep, SRC)
    rule = 'stores of the kernel are those of the definition'
    s.kernel(N + '.add', 'add', rule=rule, parts=('memory',))
    s.kernel(N + '.fused_rollback_add', ['rolladd', 'rolladd_one', 'rolladd_two', 'rolladd_three'], rule=rule, parts=('memory',))
    s.kernel(N + '.rollback', ['rollback', 'rollback_one', 'rollback_two'], rule=rule, parts=('memory',))
    rule = 'a block is split into two parts that contain every row once'
    for a, b in (('row', 'row_ref'), ('split', 'split_ref'), ('head', 'head_ref'), ('tail', 'tail_ref')):
        s.driver(a, b, rule, 'Block: ' + a)
    f, add, m = N + '.fused_rollback_add', N + '.add', N + '.merge'
    s.kernel(N + '.merge', 'merge', rule='rows of the parts nearest to the scaled shift, total drift exactly s', parts=('memory',), opaque=((f,), (f, add), ()))
    # the recursion itself, with and without the callees cut off
    s.kernel(N + '.transform__3', 'transform', rule='recursion over the two parts', parts=('memory',), opaque=((f, add, m), (f, m), (m,), ()))
    s.kernel(N + '.transform__5', 'entry', rule='entry point passes the whole array', opaque=((N + '.transform__3',),))
    s.kernel(B + '.ffa2', 'ffa2', parts=('ret',), rule='exported routine transforms its whole argument', opaque=((N + '.transform__5', B + '.assert_c_contiguous'),))
    rule = 'python entry point'
    s.fn('riptide.libffa.ffa2', ['py_ffa2', 'py_ffa2_cast', 'py_ffa2_cast2'], parts=('ret',), rule=rule)
    s.fn('riptide.libffa.ffa1', ['py_ffa1'], parts=('ret',), rule=rule)
    s.hidden()
