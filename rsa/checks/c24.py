"""C24: double precision where it matters."""
import ast
import os
import re

from .. import terms as t
from ..native import B, N, Native, memory, show_value
from ..spec import SPEC

EXPLANATION = (
    'The native functions are evaluated with every rounding to single precision (typed by clang: conversions, float arithmetic, float '
    'parameters) kept as a visible operation of the terms. No such operation may occur in: the values stored as trial periods; the number '
    'of trials, of samples and of downsampling cycles, every loop bound and every position read or written by the search, the transform '
    'and the downsampling; the position of a downsampled sample before its boundary weight is formed; the accumulation of the prefix sum. '
    'Array types of the results are read from the allocations. In Python, the operands and accumulator types of the mean and variance used '
    'by normalise, and conversions applied to periods and frequencies on their way to the reported peaks, are read from the terms. '
    'Compiler options of the extension and pragmas or attributes in the sources are enumerated.')
MINIMUM = 18

SRC = '''
import numpy as np
import riptide
from riptide.search import ffa_search
from riptide.time_series import TimeSeries

def driver(ts):
    return ffa_search(ts)
'''
PREC = {'precise': True}
PER, PLAN, POS, ACC, STAT, FREQ, BUILD = (
    'trial periods in double precision', 'search plan in double precision', 'positions in double precision',
    'prefix sum accumulated in double precision', 'statistics accumulated in double precision', 'no conversion to a shorter type',
    'no value-changing math options')


def f32s(x):
    return sorted((y for y in t.subterms(x) if y.op == 'call' and y.a[0] == 'f32'), key=lambda y: y.dg)


def pure(rep, rule, subject, where, x):
    bad = f32s(x)
    if bad:
        rep.violated(rule, subject, where, 'rounded to single precision: %s' % t.show(bad[0])[:300], None)
    else:
        rep.holds(rule, subject, where)


def parts(x, pos, val):
    """positions and extents (pos) and stored values (val) of a log of stores, with binders opened"""
    def go(x):
        if x.op == 'seq':
            for k, y in x.a[0]:
                (elem if k == 'e' else go)(y)
        elif x.op == 'flat':
            c = x.a[0]
            if c.op == 'collect':
                i, outer, inner = t.open_node(c)
                pos.append(outer[0])
                go(inner[0])
            else:
                go(c)
        elif x.op == 'collect':
            i, outer, inner = t.open_node(x)
            pos.append(outer[0])
            elem(inner[0])
        elif x.op == 'ite':
            pos.append(x.a[0])
            go(x.a[1])
            go(x.a[2])
        else:
            val.append(x)

    def elem(y):
        es = t.seq_elems(y) if y.op == 'seq' else None
        if es and len(es) == 2:
            pos.append(es[0])
            val.append(es[1])
        elif y.op == 'fill':
            pos.append(y.a[0])
        else:
            val.append(y)
    go(x)


def reads(x):
    """positions of the elements read in a value, and extents of its inner loops; binders are opened so that indices stay distinct"""
    out, todo, seen = [], [x], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'load':
            out.append(y.a[1])
        if y.op in t.BINDERS and y.op != 'loop':
            i, outer, inner = t.open_node(y)
            out.extend(o for o in outer if isinstance(o, t.T))
            todo.extend(list(outer) + list(inner))
            continue
        if y.op == 'gloop':
            out.append(y.a[0])
        todo.extend(t._walk_children(y.a))
    return out


def values(x):
    """subterms with binders opened"""
    out, todo, seen = [], [x], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        out.append(y)
        if y.op in t.BINDERS and y.op != 'loop':
            i, outer, inner = t.open_node(y)
            todo.extend([o for o in outer if isinstance(o, t.T)] + list(inner))
        else:
            todo.extend(t._walk_children(y.a))
    return out


def plan(s, rep):
    for fn in ('periodogram_length', 'downsampled_size', 'ceilshift'):
        q = N + '.' + fn
        if s.prog.resolve(q) is None:
            continue
        r = s.run(q, flags=PREC)
        if r is None:
            rep.undecided(PLAN, fn, s.at(q), s.last_error)
            continue
        pure(rep, PLAN, fn + ': result', s.at(q), s.shown(r))
        pure(rep, PLAN, fn + ': refusals', s.at(q), r.raise_cond())


def search(s, rep):
    q = (s.front.exports.get('periodogram') or (B + '.periodogram',))[0] or B + '.periodogram'
    where = s.at(q)
    ops = tuple(N + '.' + x for x in ('transform__5', 'snr2', 'downsample', 'check_trial_widths'))
    r = s.run(q, opaque=ops, flags=PREC)
    v = s.shown(r) if r is not None else None
    arrays = [x for x in (t.seq_elems(v) or ()) if x.op == 'call' and x.a[0] == 'array'] if v is not None and v.op == 'seq' else []
    if len(arrays) != 3:
        rep.undecided(PER, 'periodogram', where, s.last_error if r is None else 'result is not three arrays made here')
        return
    pure(rep, PLAN, 'periodogram: refusals', where, r.raise_cond())
    for name, x in zip(('periods', 'foldbins', 'snrs'), arrays):
        shape, dtype, log = x.a[1]
        pos, val = [shape], []
        parts(log, pos, val)
        pure(rep, PLAN, name + ': extents and positions', where, t.seq([y for y in pos if y.op != 'none']))
        if name == 'periods':
            d = dtype.a[0] if dtype.op == 'const' and isinstance(dtype.a[0], str) else None
            if d in ('double', 'long double'):
                rep.holds(PER, 'periods: element type', where)
            elif d is None:
                rep.undecided(PER, 'periods: element type', where, t.show(dtype))
            else:
                rep.violated(PER, 'periods: element type', where, 'periods are stored as %s' % d, None)
            pure(rep, PER, 'periods: stored values', where, t.seq(val))
    # factors and sizes given to the downsampling and to the transform
    bad = []
    n = 0
    for e in r.events:
        if e.kind == 'call' and e.data.get('name') in ops[:1] + ops[2:3]:
            for k, a in sorted(e.data['bound'].items()):
                if isinstance(a, t.T):
                    n += 1
                    bad += [(e.data['name'], k, y) for y in f32s(t.replace(a, drop_values))]
    if bad:
        rep.violated(PLAN, 'arguments of the transform and of the downsampling', where, '%s: %s is %s' % (bad[0][0], bad[0][1], t.show(bad[0][2])[:200]), None)
    elif n:
        rep.holds(PLAN, 'arguments of the transform and of the downsampling', where)
    else:
        rep.undecided(PLAN, 'arguments of the transform and of the downsampling', where, 'no call found')


def drop_values(y):
    return t.NONE if y.op in ('load', 'res', 'mem') else None


def downsampling(s, rep):
    q = (s.front.exports.get('downsample') or (B + '.downsample',))[0] or B + '.downsample'
    for fn in (N + '.downsample', q):
        where = s.at(fn)
        r = s.run(fn, flags=PREC)
        if r is None:
            rep.undecided(POS, fn, where, s.last_error)
            continue
        sub = fn.replace('riptide.', '', 1)
        pure(rep, POS, sub + ': refusals', where, r.raise_cond())
        logs = [l for l in memory(r).values()]
        v = s.shown(r)
        logs += [x.a[1][2] for x in t.subterms(v) if x.op == 'call' and x.a[0] == 'array']
        pos, val = [], []
        for l in logs:
            parts(l, pos, val)
        if not val:
            rep.undecided(POS, sub, where, 'no store found')
            continue
        pure(rep, POS, sub + ': samples written', where, t.seq(pos))
        pure(rep, POS, sub + ': samples read', where, t.seq([y for x in val for y in reads(x)]))
        bad, odd = [], []
        for x in val:
            for y in values(x):
                if y.op == 'call' and y.a[0] == 'f32' and not t.has_op(y, 'load', 'lv', 'gloop', 'sum') and y.a[1]:
                    a = y.a[1][0]
                    if t.is_num(a) or not any(z.op == 'idx' for z in t.subterms(a)):
                        continue
                    # a position rounded to single precision loses the fraction the weights are made of; a difference of two of them does not
                    if not t.has_op(a, 'floor', 'min', 'max', 'f32'):
                        bad.append(a)
                    elif f32s(a):
                        (bad if any(not t.has_op(z.a[1][0], 'floor', 'min', 'max', 'load') for z in f32s(a)) else odd).append(a)
        if bad:
            rep.violated(POS, sub + ': boundary weights', where, 'position rounded to single precision: %s' % t.show(bad[0])[:200], None)
        elif odd:
            rep.undecided(POS, sub + ': boundary weights', where, t.show(odd[0])[:200])
        else:
            rep.holds(POS, sub + ': boundary weights', where)


def transforms(s, rep):
    q = N + '.merge'
    where = s.at(q)
    r = s.run(q, flags=PREC)
    if r is None:
        rep.undecided(POS, 'merge', where, s.last_error)
        return
    pos, val = [], []
    for l in memory(r).values():
        parts(l, pos, val)
    pure(rep, POS, 'merge: rows and shifts', where, t.seq(pos + [y for x in val for y in reads(x)]))


def prefix(s, rep):
    q = N + '.circular_prefix_sum'
    where = s.at(q)
    r = s.run(q, flags=PREC)
    if r is None:
        rep.undecided(ACC, 'circular_prefix_sum', where, s.last_error)
        return
    logs = list(memory(r).values())
    allv = [y for l in logs for y in values(l)]
    sums = [y for y in allv if y.op == 'sum' and t.has_op(y, 'load')]
    steps = [y for y in allv if y.op == 'call' and y.a[0] == 'f32' and any(len(m) == 1 and m[0][0].op == 'lv' for m in t.to_poly(y.a[1][0]))]
    back = []
    for l in logs:
        for y in values(l):
            es = t.seq_elems(y) if y.op == 'seq' else None
            if es and len(es) == 2:
                for z in values(es[1]):
                    if z.op == 'load' and t.is_num(t.sub(es[0], z.a[1])) and t.sub(es[0], z.a[1]) is not t.ZERO and t.has_op(z.a[0], 'lv', 'mem'):
                        back.append(es[1])
    bad = [y for x in sums for y in f32s(x)] + steps + back
    if bad:
        rep.violated(ACC, 'circular_prefix_sum', where, 'partial sums are rounded to single precision: %s' % t.show(bad[0])[:300], None)
    elif not sums:
        rep.undecided(ACC, 'circular_prefix_sum', where, 'no sum over the input found')
    else:
        rep.holds(ACC, 'circular_prefix_sum', where)


DOUBLE = {'np.float64', 'float', 'np.double', 'np.longdouble', 'np.float_', 'np.float128'}
SHORT = {'np.float32', 'np.float16', 'np.single', 'np.half'}


def dname(d):
    if d.op == 'glob':
        return d.a[0]
    if d.op == 'const' and isinstance(d.a[0], str):
        return {'float64': 'np.float64', 'f8': 'np.float64', 'd': 'np.float64', 'double': 'np.float64', 'float': 'np.float64', 'float32': 'np.float32',
                'f4': 'np.float32', 'f': 'np.float32', 'single': 'np.float32', 'float16': 'np.float16'}.get(d.a[0].lstrip('<=>'), d.a[0])
    return None


def statistics(s, rep):
    q = 'riptide.time_series.TimeSeries.normalise'
    where = s.where(q)
    n = 0
    for inplace in (True, False):
        r = s.run(q, fixed={'inplace': t.TRUE if inplace else t.FALSE})
        if r is None:
            rep.undecided(STAT, 'normalise(inplace=%s)' % inplace, where, s.last_error)
            continue
        seen = {}
        pool = [r.raw] if r.raw is not None else []
        pool += [v for v in r.state.heap.values() if isinstance(v, t.T)]
        pool += [r.raise_cond()]
        pool += [r.ret] if r.ret is not None else []
        for x in pool:
            for y in t.subterms(x):
                if y.op == 'call' and y.a[0] in ('np.mean', 'np.var', 'np.std', 'np.sum', 'np.average', 'np.nanmean', 'np.nanvar', 'np.nanstd', 'np.nansum', 'np.dot', 'np.vdot'):
                    seen[y] = 1
        for y in sorted(seen, key=lambda y: y.dg):
            n += 1
            d = dict(y.a[2]).get('dtype')
            if d is None and len(y.a[1]) > 2 and y.a[0] != 'np.average':
                d = y.a[1][2]
            x = y.a[1][0] if y.a[1] else dict(y.a[2]).get('a')
            sub = 'normalise(inplace=%s): %s' % (inplace, y.a[0])
            if d is not None and d.op != 'none' and not (d.op == 'const' and d.a[0] is None):
                nm = dname(d)
                if nm in DOUBLE:
                    rep.holds(STAT, sub, where)
                elif nm in SHORT:
                    rep.violated(STAT, sub, where, 'accumulated as %s' % nm, None)
                else:
                    rep.undecided(STAT, sub, where, 'accumulator type %s' % t.show(d))
                continue
            casts = [dname(z.a[1]) for z in t.subterms(x) if z.op == 'cast'] if x is not None else []
            from ..lib import dtype_of
            dt = dtype_of(x) if x is not None else None
            if dt is not None and dname(dt) in DOUBLE:
                rep.holds(STAT, sub, where)
            elif not any(c in DOUBLE for c in casts) and not any(z.op == 'call' and z.a[0] in ('np.mean', 'np.sum') for z in t.subterms(x)):
                rep.violated(STAT, sub, where, 'the data are float32 and no accumulator type is given: %s' % t.show(y)[:200], None)
            else:
                rep.undecided(STAT, sub, where, t.show(y)[:200])
    if not n:
        rep.undecided(STAT, 'normalise', where, 'no mean or variance found')


def shortened(x):
    """conversions to a short floating point type"""
    out = []
    for y in t.subterms(x):
        if y.op == 'cast' and dname(y.a[1]) in SHORT:
            out.append(y)
        if y.op == 'call' and (y.a[0] in SHORT or any(k == 'dtype' and dname(v) in SHORT for k, v in y.a[2])):
            out.append(y)
    return out


def python(s, rep):
    # results of the search, from the native call to the periodogram object
    q = 'riptide.search.ffa_search'
    where = s.where(q)
    r = s.run(SPEC + '.driver', types={'ts': 'riptide.time_series.TimeSeries'}, opaque=('riptide.libcpp.periodogram',))
    val = None
    if r is not None:
        recs = [y for y in t.subterms(s_show(r)) if y.op == 'rec' and y.a[0].endswith('.Periodogram')]
        val = dict(recs[0].a[1]) if recs else None
    if val is None:
        rep.undecided(FREQ, 'ffa_search', where, s.last_error if r is None else 'no periodogram found in the result')
    else:
        for k in sorted(val):
            if 'period' in k or 'freq' in k:
                judge(rep, 'Periodogram.%s' % k.lstrip('_'), where, t.replace(val[k], native))
    for q, args in (('riptide.periodogram.Periodogram.freqs', {}), ('riptide.libffa.ffafreq', {}), ('riptide.libffa.ffaprd', {})):
        r = s.run(q)
        if r is None:
            rep.undecided(FREQ, q.split('.', 1)[1], s.where(q), s.last_error)
        else:
            judge(rep, q.split('.', 1)[1], s.where(q), s_show(r))
    from . import peaks as P
    s2, act, ref = P.load(rep)
    where = s2.where(P.Q)
    pk = P.split(act, s2)[0] if act is not None else None
    found = P.opened(pk, []) if pk is not None else []
    if not found:
        rep.undecided(FREQ, 'find_peaks', where, 'no construction of a Peak found')
    for k, p in enumerate(sorted(found, key=lambda x: x.dg)):
        d = dict(p.a[1])
        for fld in ('freq', 'period'):
            if fld in d:
                judge(rep, 'Peak.%s%s' % (fld, '' if len(found) == 1 else ' #%d' % k), where, drop_index(d[fld], d))


def drop_index(x, d):
    """the index of the peak may come from any computation"""
    ip = d.get('ip')
    return t.replace(x, lambda y: t.mk('param', 'ip') if ip is not None and y is ip else None)


def native(y):
    return t.mk('param', 'NATIVE') if y.op == 'call' and y.a[0] == 'riptide.libcpp.periodogram' else None


def s_show(r):
    return show_value(r, r.raw)


def judge(rep, subject, where, x):
    bad = shortened(x)
    if bad:
        rep.violated(FREQ, subject, where, t.show(bad[0])[:300], None)
    else:
        rep.holds(FREQ, subject, where)


BAD = ('-ffast-math', '-Ofast', '-funsafe-math-optimizations', '-freciprocal-math', '-fsingle-precision-constant', '-mrecip', '-fcx-limited-range', '-fcx-fortran-rules',
       '-mfast-math', '-mfpmath=387', '-ffloat-store-off')


def strings(node):
    return [x for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str)]


def build(s, rep):
    root = os.environ.get('RSA_REPO', '/repo')
    p = os.path.join(root, 'setup.py')
    n = 0
    if os.path.exists(p):
        tree = ast.parse(open(p).read())
        docs = {id(b.body[0].value) for b in ast.walk(tree) if isinstance(b, (ast.Module, ast.FunctionDef, ast.ClassDef)) and b.body and isinstance(b.body[0], ast.Expr)}
        for c in strings(tree):
            if id(c) in docs:
                continue
            for w in c.value.split():
                if w in BAD or w.startswith('-mrecip'):
                    rep.violated(BUILD, 'setup.py: %s' % w, 'setup.py:%d' % c.lineno, 'changes the values of double precision divisions', None)
                n += w.startswith('-')
        rep.holds(BUILD, 'setup.py: %d options' % n, 'setup.py:1')
    cpp = os.path.join(root, 'riptide', 'cpp')
    for f in sorted(os.listdir(cpp)) if os.path.isdir(cpp) else ():
        if not f.endswith(('.hpp', '.cpp', '.h', '.cc', '.hh')):
            continue
        text = open(os.path.join(cpp, f), errors='replace').read()
        text = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)) if not m.group(0).startswith('"') else m.group(0), text, flags=re.S)
        hit = re.search(r'#\s*pragma\s+(GCC\s+optimize|clang\s+fp|STDC\s+FP_CONTRACT|fast_math|float_control)[^\n]*|__attribute__\s*\(\(\s*(__)?optimize|\[\[\s*gnu::optimize|_Pragma\s*\(\s*"(GCC optimize|clang fp)', text)
        if hit and re.search(r'fast|unsafe|recip|assoc|Ofast', text[hit.start():hit.start() + 200]):
            rep.violated(BUILD, f, 'riptide/cpp/%s:%d' % (f, text.count('\n', 0, hit.start()) + 1), hit.group(0)[:100], None)
        else:
            rep.holds(BUILD, f, 'riptide/cpp/%s:1' % f)


def run(rep):
    s = Native(rep, SRC)
    plan(s, rep)
    search(s, rep)
    downsampling(s, rep)
    transforms(s, rep)
    prefix(s, rep)
    statistics(s, rep)
    python(s, rep)
    build(s, rep)
    s.hidden()
