"""C03: a periodogram holds exactly the trials it was sized for."""
from .. import terms as t
from ..native import B, N, Native, show_value
from ..spec import SPEC, decide

EXPLANATION = (
    'The exported periodogram routine is evaluated symbolically from the native sources with the length computation and the search itself '
    'expanded (transform, S/N and downsampling kernels opaque). For each of the three output arrays the analysis has the extents it is '
    'allocated with and the list of every store made to it, as nested loops over offsets. It then decides: the number of stores equals the '
    'number of entries allocated, as functions of all arguments (the sizing loop and the search loop are two separate pieces of code); the '
    'stores are to consecutive offsets starting at 0, so that nothing is left unwritten, written twice or past the end; the three arrays '
    'are filled by the same nest of trials (same number of cycles, of bin counts and of shifts at each), and the S/N rows of a trial are '
    'those of the transform with the number of bins recorded for it. The count is compared a second time with every rounded operation in '
    'double precision kept as written (commutative, but not associative or distributive): two size computations that only agree for real '
    'numbers are reported.')
MINIMUM = 14

SRC = '''
import riptide.libcpp as libcpp
from riptide.search import ffa_search
'''
R = {'round': 'sizes computed with the same rounding', 'count': 'as many entries written as allocated', 'cons': 'entries written once each, without gaps', 'nest': 'same trials in the three arrays'}


class Unknown(Exception):
    pass


def leaf(x):
    """(units stored, offset divisor) of one element of a store log"""
    if x.op == 'fill':
        res = x.a[1]
        if res.op != 'res' or res.a[0].op != 'app':
            raise Unknown('stores made by an unknown function')
        name, bound = res.a[0].a[0], dict(res.a[0].a[1])
        if name != N + '.snr2' or not all(k in bound for k in ('block', 'num_widths')):
            raise Unknown('stores made by %s' % name)
        blk = bound['block']
        rows, cols = t.attr(blk, 'rows'), t.attr(blk, 'cols')
        return rows, bound['num_widths'], cols
    return t.ONE, t.ONE, None


def count(x):
    """number of units (entries, or rows of S/N) a log stores"""
    if x.op == 'seq':
        return t.add(t.ZERO, sum_([leaf(y)[0] if k == 'e' else count(y) for k, y in x.a[0]]))
    if x.op == 'flat' and x.a[0].op == 'collect':
        i, outer, inner = t.open_node(x.a[0])
        if inner[1] is not t.TRUE:
            raise Unknown('filtered loop')
        return t.tsum(outer[0], i, count(inner[0]))
    if x.op == 'collect':
        i, outer, inner = t.open_node(x)
        if inner[1] is not t.TRUE:
            raise Unknown('filtered loop')
        return t.tsum(outer[0], i, leaf(inner[0])[0])
    if x.op == 'ite':
        return t.ite(x.a[0], count(x.a[1]), count(x.a[2]))
    raise Unknown('stores of form %s' % x.op)


def sum_(xs):
    r = t.ZERO
    for x in xs:
        r = t.add(r, x)
    return r


def offset(x):
    return x.a[0] if x.op == 'fill' else t.seq_elems(x)[0]


def consecutive(x, base, unit, out):
    """collects (offset found, offset expected) for every store"""
    if x.op == 'seq':
        for k, y in x.a[0]:
            if k == 'e':
                out.append((offset(y), t.mul(unit, base)))
                base = t.add(base, leaf(y)[0])
            else:
                consecutive(y, base, unit, out)
                base = t.add(base, count(y))
        return
    c = x.a[0] if x.op == 'flat' else x
    if c.op != 'collect':
        raise Unknown('stores of form %s' % c.op)
    i, outer, inner = t.open_node(c)
    if inner[1] is not t.TRUE:
        raise Unknown('filtered loop')
    j = t.fresh_idx()
    t.INT_ATOMS.add(j)
    n = count(inner[0]) if x.op == 'flat' else leaf(inner[0])[0]
    before = t.add(base, t.tsum(i, j, t.subst(n, {i: j})))
    if x.op == 'flat':
        consecutive(inner[0], before, unit, out)
    else:
        out.append((offset(inner[0]), t.mul(unit, before)))


def nest(x, pick):
    """the nest of trials: bounds of the loops, and pick(element) in terms of their indices"""
    if x.op == 'seq' and len(x.a[0]) == 1:
        k, y = x.a[0][0]
        return pick(y) if k == 'e' else nest(y, pick)
    c = x.a[0] if x.op == 'flat' else x
    if c.op != 'collect':
        raise Unknown('stores of form %s' % c.op)
    i, outer, inner = t.open_node(c)
    if x.op == 'flat':
        return t.collect(outer[0], i, nest(inner[0], pick), inner[1])
    y = inner[0]
    if y.op == 'fill':
        return t.collect(outer[0], i, pick(y), inner[1])
    # the innermost loop over shifts: the element must not depend on the shift for what is compared here
    p = pick(y)
    if i in t.subterms(p):
        raise Unknown('depends on the shift')
    return t.seq([outer[0], t.seq_elems(p)[1]]) if t.seq_elems(p) else outer[0]


def run(rep):
    s = Native(rep, SRC)
    q = (s.front.exports.get('periodogram') or (B + '.periodogram',))[0] or B + '.periodogram'
    where = s.at(q)
    ops = tuple(N + '.' + x for x in ('transform__5', 'snr2', 'downsample', 'downsampled_variance', 'check_trial_widths'))
    r = s.run(q, opaque=ops)
    if r is None:
        rep.undecided(R['count'], 'periodogram', where, s.last_error)
        s.hidden()
        return
    v = t.seq_elems(s.shown(r)) if s.shown(r).op == 'seq' else None
    arrays = [x for x in v or () if x.op == 'call' and x.a[0] == 'array']
    if len(arrays) != 3:
        rep.undecided(R['count'], 'periodogram', where, 'result is not three arrays made here: %s' % t.show(s.shown(r))[:200])
        s.hidden()
        return
    widths = None
    logs = {}
    for name, x in zip(('periods', 'foldbins', 'snrs'), arrays):
        shape, dtype, log = x.a[1]
        ext = t.seq_elems(shape) or ()
        logs[name] = log
        try:
            n = count(log)
            unit = t.ONE
            if name == 'snrs':
                fills = [y for y in t.subterms(log) if y.op == 'fill']
                unit = leaf(fills[0])[1] if fills else t.ONE
            judge(s, rep, R['count'], name + ': number of entries', where, n, ext[0] if ext else t.NONE)
            if name == 'snrs':
                judge(s, rep, R['count'], 'snrs: width of a row', where, unit, ext[1] if len(ext) > 1 else t.NONE)
            pairs = []
            consecutive(log, t.ZERO, unit, pairs)
            for k, (found, want) in enumerate(pairs):
                judge(s, rep, R['cons'], '%s: offset of store %d' % (name, k + 1), where, found, want)
        except Unknown as e:
            rep.undecided(R['count'], name, where, str(e))
    first = arrays[0].a[1][0]
    for name, x in zip(('foldbins', 'snrs'), arrays[1:]):
        judge(s, rep, R['count'], name + ': as long as periods', where, (t.seq_elems(x.a[1][0]) or [t.NONE])[0], (t.seq_elems(first) or [t.NONE])[0])
    try:
        bounds = lambda y: t.ZERO
        a = nest(logs['periods'], bounds)
        b = nest(logs['foldbins'], bounds)
        judge(s, rep, R['nest'], 'periods and foldbins', where, b, a)
        val = nest(logs['foldbins'], lambda y: t.seq([t.ZERO, t.seq_elems(y)[1]]))
        blk = nest(logs['snrs'], lambda y: t.seq([leaf(y)[0], leaf(y)[2]]))
        judge(s, rep, R['nest'], 'foldbins and snrs: shifts and bins of each transform', where, blk, val)
    except Unknown as e:
        rep.undecided(R['nest'], 'nests', where, str(e))
    rounding(s, rep, q, ops, where)
    s.hidden()


def rounding(s, rep, q, ops, where):
    """the same count with every double precision operation kept as it is written: two expressions that are equal for real numbers
    may be rounded to different whole numbers"""
    r = s.run(q, opaque=ops, flags={'rounded': True, 'precise': True})
    v = t.seq_elems(s.shown(r)) if r is not None and s.shown(r).op == 'seq' else None
    arrays = [x for x in v or () if x.op == 'call' and x.a[0] == 'array']
    if len(arrays) != 3:
        rep.undecided(R['round'], 'periodogram', where, s.last_error if r is None else 'result is not three arrays made here')
        return
    for name, x in zip(('periods', 'foldbins', 'snrs'), arrays):
        shape, dtype, log = x.a[1]
        try:
            judge(s, rep, R['round'], name + ': number of entries', where, count(log), (t.seq_elems(shape) or [t.NONE])[0])
        except Unknown as e:
            rep.undecided(R['round'], name, where, str(e))


def judge(s, rep, rule, subject, where, actual, want):
    s.judge(rule, subject, actual, [want], where)
