"""C01: native routines never misread a strided array."""
import re
from .. import terms as t
from .. import cxx
from ..native import N, Native
from ..spec import calls

EXPLANATION = (
    'Every function exported by the extension module (found in the module initialiser of the native sources, read through clang\'s typed '
    'syntax tree) is evaluated symbolically with all kernels it calls expanded. For each array argument whose raw address it takes, the '
    'flags of that array are set to those of an array that is not C-contiguous (for one- and two-dimensional arguments; for two '
    'dimensions also the Fortran-ordered one): under that assumption the function must end in an exception on every path, and no read '
    'through that address may be reachable. A guard that depends on something else of the array (strides, a computed property) is '
    'reported undecided. On the python side the argument handed to the native running median must be a C-contiguous conversion of the '
    'input with the same elements.')
MINIMUM = 10

SRC = '''
import numpy as np
import riptide.libcpp as libcpp

def rmed(x, w):
    return libcpp.running_median(x, w)
'''

# numpy flag words of arrays that are not C-contiguous: (aligned, writeable, owning its data or not); two-dimensional ones may in
# addition be Fortran-contiguous
ONE_D = (0x500, 0x504, 0x100, 0x400)
TWO_D = ONE_D + (0x502, 0x506)
PLAIN = ('shape', 'size', 'ndim', 'flags', 'dtype', 'itemsize', 'nbytes')


def other(c, arr):
    """properties of the array, other than flags and extents, that a condition depends on"""
    out = set()
    for y in t.subterms(c):
        if y.op == 'attr' and y.a[0] is arr and y.a[1] not in PLAIN:
            out.add(str(y.a[1]))
        elif y.op == 'mcall' and y.a[0] is arr:
            out.add(str(y.a[1]))
        elif y.op == 'call' and y.a[0] not in ('len', 'size', 'bool', 'array') and isinstance(y.a[1], tuple) and arr in y.a[1]:
            out.add(str(y.a[0]))
    return out


def flagged(c, arr, v):
    """the condition when the flag word of the array is v"""
    fl = t.mk('attr', arr, 'flags')

    def f(x):
        if x is fl:
            return t.num(v)
        if x.op == 'bitand' and all(t.is_num(y) for y in x.a):
            return t.num(int(t.numval(x.a[0])) & int(t.numval(x.a[1])))
        if x.op == 'bool' or x.op == 'truth':
            return None
    return t.replace(c, f)


def reads(e, ptr):
    if e.kind == 'call':
        return any(ptr in t.subterms(x) for x in list((e.data.get('bound') or {}).values()) + list(e.data.get('args') or ()) if isinstance(x, t.T))
    if e.kind == 'range' and e.data.get('write'):
        return False
    p = e.data.get('root') if e.kind == 'load' else e.data.get('pointer')
    while p is not None and p.op == 'padd':
        p = p.a[0]
    return p is ptr


def export(s, rep, py, qual):
    rule = 'strided arrays refused before they are read'
    # kernels that get bare pointers stay opaque: handing them the address counts as reading
    r = s.run(qual, opaque=tuple(q for q, p in s.front.protos.items() if q.startswith(N + '.') and not any(k == 'arr' for _, _, k in p)))
    if r is None:
        rep.undecided(rule, py, s.at(qual), s.last_error)
        return
    bases = []
    for e in r.events:
        if e.kind == 'data' and e.data['base'] not in bases and e.data['base'].op == 'param':
            bases.append(e.data['base'])
    rc = r.raise_cond()
    types = {nm: ty for nm, ty, k in s.front.protos.get(qual, ())}
    for arr in bases:
        nm = t.show(arr)
        sub = '%s: %s' % (py, nm)
        ptr = cxx.pointer_of(r.ev, arr)
        dim = [e for e in r.events if any(x.op == 'item' and x.a[0] is t.mk('attr', arr, 'shape') for y in e.data.values() if isinstance(y, t.T) for x in t.subterms(y))]
        bad = und = None
        if re.search(r'array_t<[^<>]*,', types.get(nm, '')):
            und = '%s is declared %s: converted before the function is entered' % (nm, types[nm])
        for v in (TWO_D if dim else ONE_D):
            g = flagged(rc, arr, v)
            if g is not t.TRUE:
                why = 'an array %s with flags 0x%x (not C-contiguous) is accepted%s' % (nm, v, '' if g is t.FALSE else ' unless ' + t.show(g)[:200])
                if other(g, arr):
                    und = und or '%s; the refusal depends on %s' % (why, sorted(other(g, arr)))
                else:
                    bad = bad or why
                continue
            for e in r.events:
                if e.kind in ('load', 'range', 'call') and reads(e, ptr) and flagged(e.guard, arr, v) is not t.FALSE:
                    bad = bad or '%s is read at line %s before it is refused' % (nm, getattr(e.node, 'lineno', '?'))
        if r.ev.unmodelled and bad:
            und, bad = und or '%s; not modelled: %s' % (bad, r.ev.unmodelled), None
        if bad and not und:
            rep.violated(rule, sub, s.at(qual), bad)
        elif bad or und:
            rep.undecided(rule, sub, s.at(qual), und or bad)
        else:
            rep.holds(rule, sub, s.at(qual))


NATIVE_MEDIAN = 'riptide.libcpp.running_median'


def strided(g, arr):
    """a condition when the argument is every second value of an array of 4-byte floats"""
    A = lambda n: t.mk('attr', arr, n)
    known = {t.mk('item', A('strides'), t.const(0)): t.const(8), A('itemsize'): t.const(4), A('ndim'): t.const(1),
             A('nbytes'): t.const(400), A('size'): t.const(100), t.mk('len', arr): t.const(100)}
    for n in ('c_contiguous', 'contiguous', 'f_contiguous', 'forc', 'fnc', 'farray', 'carray'):
        known[t.mk('attr', A('flags'), n)] = t.FALSE
    for n in ('C_CONTIGUOUS', 'F_CONTIGUOUS', 'C', 'F', 'CONTIGUOUS'):
        known[t.mk('item', A('flags'), t.const(n))] = t.FALSE
    g = t.replace(g, known.get)
    return True if g is t.TRUE else False if g is t.FALSE else None


def contiguous(x, arr):
    """True: certainly C-contiguous; False: as strided as the argument, for some arguments; None: unknown"""
    if x.op == 'ite':
        g = strided(x.a[0], arr)
        if g is not None:
            return contiguous(x.a[1] if g else x.a[2], arr)
    if x.op == 'call' and x.a[0] == 'np.ascontiguousarray':
        return True
    y = x
    while True:
        if y is arr:
            return False
        if y.op in ('maybeview', 'view'):
            y = y.a[0]
            continue
        if y.op == 'call' and y.a[0] in ('np.asarray', 'np.asanyarray', 'np.array', 'np.float32', 'astype') and y.a[1] and isinstance(y.a[1], tuple):
            y = y.a[1][0]
            continue
        return None


def python_side(s, rep):
    rule = 'python running median hands over a contiguous copy'
    q = 'riptide.running_medians.running_median'
    flags = dict(keep_contig=True, keep_copies=True)
    for fn in (q, 'riptide.running_medians.fast_running_median'):
        r = s.run(fn, flags=flags)
        sub = fn.replace('riptide.', '', 1)
        if r is None:
            rep.undecided(rule, sub, 'riptide/running_medians.py', s.last_error)
            continue
        es = calls(r, NATIVE_MEDIAN)
        if not es:
            rep.undecided(rule, sub, s.at(fn), 'no call of the native running median')
        for k, e in enumerate(es):
            a = e.data['args'][0] if e.data.get('args') else None
            if a is None:
                rep.undecided(rule, '%s: call %d' % (sub, k + 1), s.at(fn), 'argument not understood')
                continue
            a = r.ev.deref(a, r.state)
            arr = t.mk('param', s.argnames(fn)[0][0])
            c = contiguous(a, arr)
            if c is False:
                rep.violated(rule, '%s: call %d' % (sub, k + 1), s.at(fn), 'receives %s, which is not contiguous when the input is not' % t.show(a)[:200])
            elif c is None:
                rep.undecided(rule, '%s: call %d' % (sub, k + 1), s.at(fn), 'contiguity of %s unknown' % t.show(a)[:200])
            else:
                rep.holds(rule, '%s: call %d' % (sub, k + 1), s.at(fn))
    s.fn(q, ['rmed'], rule='the copy has the elements of the input')


def run(rep):
    s = Native(rep, SRC)
    if not s.front.exports:
        rep.undecided('strided arrays refused before they are read', 'exported functions', 'riptide/cpp/python_bindings.cpp', 'module initialiser not understood')
    for py, (qual, names, defaults) in sorted(s.front.exports.items()):
        if qual is None:
            rep.undecided('strided arrays refused before they are read', py, 'riptide/cpp/python_bindings.cpp', 'exported object is not a function of the sources')
            continue
        export(s, rep, py, qual)
    python_side(s, rep)
    s.hidden()
