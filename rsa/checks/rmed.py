"""The exact running median: what is pushed, and which window each output is taken from."""
import ast
from fractions import Fraction

from .. import terms as t
from ..native import B, N, Native, memory
from ..spec import SPEC
from .c03 import Unknown, consecutive, count

WIN, RING = 'output k is the median of the window centred on sample k, edges replicated', 'the median is that of the last pushed samples'

RECORDER = '''
class RunningMedian:
    def __init__(self, width: cxx_uint):
        self.width = width
        self.log = []
        self.count = 0
    def push(self, val: cxx_f32):
        self.log.append(val)
        self.count += 1
        return (self.width, self.count)
'''

SRC = '''
import cxx
import riptide
import riptide.native

def binding(arr: cxx_arr, width: cxx_uint):
    n = arr.shape[0]
    out = cxx.array([n], 'float')
    riptide.native.running_median(cxx.data(arr, 0), n, width, cxx.mutable_data(out, 0))
    return out

def push(half: cxx_uint, pos: cxx_uint, val: cxx_f32):
    if pos > 2 * half:
        raise ValueError('outside the ring')
    m = riptide.native.RunningMedian(2 * half + 1)
    m.writepos = pos
    r = m.push(val)
    return (r, m.writepos, m.ring)

def push_ref(half: cxx_uint, pos: cxx_uint, val: cxx_f32):
    if pos > 2 * half:
        raise ValueError('outside the ring')
    width = 2 * half + 1
    ring = cxx.new(width, 'float', 0)
    buffer = cxx.new(width, 'float', 0)
    cxx.store(ring, val, pos)
    cxx.copy(buffer, ring, width)
    p = pos + 1
    if p >= width:
        p = 0
    return (riptide.native.nth_element(buffer, 0, width - 1, half), p, ring)

def push_mod(half: cxx_uint, pos: cxx_uint, val: cxx_f32):
    if pos > 2 * half:
        raise ValueError('outside the ring')
    width = 2 * half + 1
    ring = cxx.new(width, 'float', 0)
    buffer = cxx.new(width, 'float', 0)
    cxx.store(ring, val, pos)
    cxx.copy(buffer, ring, width)
    return (riptide.native.nth_element(buffer, 0, width - 1, half), (pos + 1) % width, ring)

def start(half: cxx_uint):
    m = riptide.native.RunningMedian(2 * half + 1)
    return (m.writepos, cxx.length(m.ring), cxx.length(m.buffer))

def start_ref(half: cxx_uint):
    return (0, 2 * half + 1, 2 * half + 1)
'''


def nat(name):
    p = t.mk('param', name)
    t.INT_ATOMS.add(p)
    t.NAT_ATOMS.add(p)
    return p


def value(x, env):
    """number denoted by an arithmetic term"""
    if x in env:
        return env[x]
    if t.is_num(x):
        return Fraction(x.a[0])
    if x.op == 'poly':
        out = Fraction(0)
        for m, c in x.a[0]:
            v = Fraction(c)
            for f, e in m:
                v *= value(f, env) ** int(e)
            out += v
        return out
    if x.op == 'floor':
        v = value(x.a[0], env)
        return Fraction(v.numerator // v.denominator)
    if x.op in ('min', 'max'):
        return (min if x.op == 'min' else max)(value(y, env) for y in x.a[0])
    raise Unknown('value of %s' % x.op)


def nonneg(x, nats):
    """a polynomial in natural numbers without negative coefficient"""
    p = t.to_poly(x)
    return all(c >= 0 and all(f in nats and e == int(e) and e > 0 for f, e in m) for m, c in p.items())


def segments(log):
    """[(count, index, element)] of a list built by consecutive loops"""
    if log.op == 'seq':
        out = []
        for k, y in log.a[0]:
            out += [(t.ONE, None, y)] if k == 'e' else segments(y)
        return out
    if log.op == 'collect':
        i, outer, inner = t.open_node(log)
        if inner[1] is not t.TRUE:
            raise Unknown('filtered loop')
        t.INT_ATOMS.add(i)
        return [(outer[0], i, inner[0])]
    raise Unknown('samples pushed by %s' % log.op)


def outputs(log):
    if log.op == 'seq' and not (log.a[0] and all(k == 'e' for k, y in log.a[0]) and len(log.a[0]) == 2 and log.a[0][0][1].op != 'seq'):
        out = []
        for k, y in log.a[0]:
            out += [(t.ONE, None, y)] if k == 'e' else outputs(y)
        return out
    if log.op == 'collect':
        return segments(log)
    raise Unknown('stores of form %s' % log.op)


def windows(rep, s, half_one):
    """one case: windows of a single sample, or wider ones"""
    q = N + '.running_median'
    where = s.at(q)
    sub = 'windows of one sample' if half_one else 'windows of 2h+1 > 1 samples'
    h, z = nat('h'), nat('z')
    half = t.ZERO if half_one else t.add(h, t.ONE)
    width = t.add(t.mul(t.num(2), half), t.ONE)
    size = t.add(t.add(width, t.ONE), z)
    nats = {h, z}
    r = s.run(q, fixed={'width': width, 'size': size})
    if r is None:
        rep.undecided(WIN, sub, where, s.last_error)
        return
    if r.raise_cond() is not t.FALSE:
        (rep.violated if r.raise_cond() is t.TRUE else rep.undecided)(WIN, sub + ': accepted', where, t.show(r.raise_cond())[:300])
        return
    rep.holds(WIN, sub + ': accepted', where)
    insts = [l for l in {l for (l, f) in r.state.heap} if r.ev.refs[l]['kind'] == 'inst' and (l, 'log') in r.state.heap]
    mem = list(memory(r).items())
    if len(insts) != 1 or len(mem) != 1:
        raise Unknown('%d median objects, %d arrays written' % (len(insts), len(mem)))
    v = r.state.heap[(insts[0], 'log')]
    log = segments(r.ev.content(v, r.state) if v.op == 'ref' else v)
    out = mem[0][1]
    data = [x for x in s.params(q)][0]
    # every output once
    pairs = []
    consecutive(out, t.ZERO, t.ONE, pairs)
    for k, (found, want) in enumerate(pairs):
        s.judge(WIN, '%s: position of output group %d' % (sub, k + 1), found, [want], where)
    s.judge(WIN, sub + ': number of outputs', count(out), [size], where)
    outs = []
    for n, i, e in outputs(out):
        es = t.seq_elems(e)
        ev = t.seq_elems(es[1]) if es and len(es) == 2 else None
        if ev is None or len(ev) != 2:
            raise Unknown('output that is not a median')
        outs.append((n, i, es[0], ev[0], ev[1]))
    lag = t.add(t.sub(t.sub(outs[0][4], outs[0][2]), width), half)
    bad = []
    for n, i, o, w, c in outs:
        s.judge(WIN, sub + ': number of samples the median is taken over', w, [width], where)
        d = t.add(t.sub(t.sub(c, o), width), half)
        if d is not lag or (i is not None and t.contains(d, i)):
            bad.append('output %s is taken after %s samples' % (t.show(o), t.show(c)))
    # what is pushed: sample number n must be data[clamp(n - lag)]
    s0 = t.ZERO
    unproved = []
    if not nonneg(t.sub(lag, half), nats):
        bad.append('the first output is taken before the ring is full')
    for n, i, e in log:
        last = t.sub(n, t.ONE)
        pos = t.sub(t.add(s0, i if i is not None else t.ZERO), lag)
        p0, p1 = (t.subst(pos, {i: t.ZERO}), t.subst(pos, {i: last})) if i is not None else (pos, pos)
        s0 = t.add(s0, n)
        if n is t.ZERO or nonneg(t.sub(t.sub(t.neg(half), t.ONE), p1), nats):
            continue        # before the first window
        if e.op != 'load' or not (e.a[0].op == 'mem' and e.a[0].a[0].op == 'param' and e.a[0].a[0].a[0] == data or e.a[0].op == 'param' and e.a[0].a[0] == data):
            raise Unknown('pushes %s' % t.show(e)[:100])
        x = e.a[1]
        top = t.sub(size, t.ONE)
        ok = (x is pos and nonneg(p0, nats) and nonneg(t.sub(top, p1), nats)) or (x is t.ZERO and nonneg(t.neg(p1), nats)) \
            or (x is top and nonneg(t.sub(p0, top), nats)) or (x is t.ZERO and p0 is p1 and p0 is t.ZERO)
        if not ok:
            unproved.append((n, i, x, pos, e))
    if not unproved and not bad:
        rep.holds(WIN, sub, where)
        return
    # look for an instance in which an output is not the median of its window
    for hv in ((0,) if half_one else (0, 1, 2, 3)):
        for zv in (0, 1, 2, 5):
            env = {h: Fraction(hv), z: Fraction(zv)}
            seq = []
            for n, i, e in log:
                for k in range(int(value(n, env))):
                    seq.append(value(e.a[1], {**env, i: Fraction(k)}))
            N_, H = value(size, env), value(half, env)
            for n, i, o, w, c in outs:
                for k in range(int(value(n, env))):
                    ee = {**env, i: Fraction(k)}
                    ov, cv = value(o, ee), value(c, ee)
                    a = cv - (2 * H + 1)
                    got = [Fraction(-1)] * max(0, int(-a)) + seq[max(0, int(a)):int(cv)]
                    want = [min(max(ov + j, 0), N_ - 1) for j in range(int(-H), int(H) + 1)]
                    if sorted(got) != sorted(want):
                        rep.violated(WIN, sub, where, 'size %d, width %d: output %d is taken over samples %s (-1: none yet)' % (N_, 2 * H + 1, ov, [int(g) for g in got]), None)
                        return
    rep.undecided(WIN, sub, where, '; '.join(bad) or 'pushes %s as sample number %s' % (t.show(unproved[0][2]), t.show(unproved[0][3])))


def run(rep):
    s = Native(rep, SRC)
    q = N + '.RunningMedian'
    c = s.prog.resolve(q)
    if c is None or c[0] != 'class' or {m.name for m in c[2].body if isinstance(m, ast.FunctionDef)} - {'ringbuf_push'} != {'__init__', 'push'}:
        rep.undecided(RING, 'RunningMedian', s.at(N + '.running_median'), 'another class')
        return
    cls = c[2]
    init = next(m for m in cls.body if getattr(m, 'name', '') == '__init__')
    fields = {x.attr for x in ast.walk(init) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    where = s.at(q + '.push')
    if {'writepos', 'ring', 'buffer'} <= fields:
        op = (N + '.nth_element',)
        s.driver('push', ['push_ref', 'push_mod'], RING, 'RunningMedian.push', anchor=q + '.push', opaque=op)
        s.driver('start', 'start_ref', RING, 'RunningMedian: empty ring', anchor=q + '.__init__', opaque=op)
    else:
        rep.undecided(RING, 'RunningMedian.push', where, 'other fields: %s' % sorted(fields))
    keep = cls.body
    body = ast.parse(RECORDER).body[0].body
    for x in body:
        for y in ast.walk(x):
            if hasattr(y, 'lineno'):
                y.lineno = cls.lineno
    cls.body = body
    try:
        for one in (True, False):
            try:
                windows(rep, s, one)
            except Unknown as e:
                rep.undecided(WIN, 'windows', s.at(N + '.running_median'), str(e))
    finally:
        cls.body = keep
    s.kernel(B + '.running_median', 'binding', rule='exported routine covers its whole argument', parts=('ret',),
             opaque=(N + '.running_median', B + '.assert_c_contiguous'))
    s.hidden()
