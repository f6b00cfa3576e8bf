"""Random interpretation of value terms (in the sense of Gulwani and Necula): the two normal forms under comparison are
given values in many small pseudo-random models of their free symbols.

Nothing of the analysed program is run: the models interpret the *terms* produced by the static evaluation, with free
symbols (parameters, library calls, attributes) drawn from a hash, so equal terms get equal values by construction.
The outcome is used in one direction only: a difference reported by the normal forms is withdrawn (it becomes "undecided")
when the two sides agree in every model, because the normal forms then probably miss an equality.  A property is never said to hold
on the strength of models.
"""
import hashlib
import itertools
import math
import time
from fractions import Fraction

from . import terms as t


class Skip(Exception):
    """no value in this model (division by zero, index out of range, a construct without an interpretation)"""


class O:
    """value of a free symbol"""
    __slots__ = ('key', 'shape')

    def __init__(self, key, shape):
        self.key, self.shape = key, shape


class Lam:
    __slots__ = ('term', 'env')

    def __init__(self, term, env):
        self.term, self.env = term, env


class Rec:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class D:
    """dictionary: canonical key -> (key, value), in insertion order"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}


class Set:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


class P:
    """pointer into a free object"""
    __slots__ = ('o', 'k')

    def __init__(self, o, k):
        self.o, self.k = o, k


NOTHING = ('nothing',)
NUMS = (int, float, Fraction)
CAP = 48


def isnum(v):
    return isinstance(v, NUMS)


def shape_of(x, depth=0):
    """name of the place a free symbol comes from, indices forgotten"""
    if depth > 40:
        return None
    if x.op == 'param':
        return 'p:' + str(x.a[0])
    if x.op == 'glob':
        return 'g:' + str(x.a[0])
    if x.op == 'attr':
        s = shape_of(x.a[0], depth + 1)
        return s and s + '.' + str(x.a[1])
    if x.op == 'item':
        s = shape_of(x.a[0], depth + 1)
        if s is None:
            return None
        if x.a[1].op == 'const' and isinstance(x.a[1].a[0], str):
            return s + '.' + x.a[1].a[0]
        return s + '[]'
    if x.op == 'load':
        s = shape_of(x.a[0], depth + 1)
        return s and s + '[]'
    if x.op in ('call', 'app', 'mcall'):
        return str(x.a[0]) + '()'
    if x.op in ('cast', 'copy', 'slice', 'reversed', 'arr', 'sorted', 'padd'):
        return shape_of(x.a[0], depth + 1)
    if x.op == 'keys':
        s = shape_of(x.a[0], depth + 1)
        return s and s + '.keys'
    return None


class Flags:
    def __init__(self, roots):
        self.num, self.seq, self.str, self.int, self.nat, self.none, self.bool, self.map = (set() for _ in range(8))
        self.strings, self.numbers = set(), set()
        seen = set()
        stack = [r for r in roots if r is not None]
        while stack:
            y = stack.pop()
            if y in seen:
                continue
            seen.add(y)
            self.note(y)
            stack.extend(t._walk_children(y.a))
        for s in list(self.seq):
            if s in self.num:
                self.num.add(s + '[]')
        self.strings = sorted(self.strings)
        self.numbers = sorted(self.numbers)

    def note(self, y):
        def f(x, where):
            s = shape_of(x)
            if s:
                where.add(s)
        op = y.op
        if op == 'poly':
            for m, c in y.a[0]:
                for x, e in m:
                    f(x, self.num)
        elif op in ('min', 'max'):
            for x in y.a[0]:
                f(x, self.num)
        elif op in ('floor', 'round', 'abs', 'pos', 'nn'):
            f(y.a[0], self.num)
        elif op == 'cast':
            if y.a[1].op == 'glob' and y.a[1].a[0] in ('int', 'float', 'np.float32', 'np.float64', 'np.uint64', 'np.int64'):
                f(y.a[0], self.num)
        elif op == 'eq':
            for x, z in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                if z.op == 'const' and isinstance(z.a[0], str):
                    f(x, self.str)
                if z.op == 'num':
                    f(x, self.num)
        elif op in ('item', 'load') and not (y.a[1].op == 'const' and isinstance(y.a[1].a[0], str)):
            f(y.a[0], self.seq)
            f(y.a[1], self.num)
        elif op == 'item':
            f(y.a[0], self.map)
        elif op in ('slice', 'len', 'reversed', 'sorted', 'maxof', 'minof', 'sumof', 'flat', 'minby', 'maxby'):
            f(y.a[0], self.seq)
        elif op == 'isnone':
            f(y.a[0], self.none)
        elif op == 'truth':
            f(y.a[0], self.bool)
        elif op == 'call' and y.a[0] in ELEMENTWISE | REDUCERS and y.a[1]:
            f(y.a[1][0], self.num)
            if y.a[0] in REDUCERS:
                f(y.a[1][0], self.seq)
        elif op == 'const' and isinstance(y.a[0], str):
            self.strings.add(y.a[0])
        elif op == 'num':
            self.numbers.add(y.a[0])
        if t.is_int(y) and op in ('param', 'attr', 'item', 'call', 'app', 'mcall', 'load'):
            f(y, self.int)
            f(y, self.num)
        if op == 'isinst' and y.a[1].op == 'glob' and y.a[1].a[0] == 'int':
            f(y.a[0], self.int)
            f(y.a[0], self.num)
        if t.is_nat(y):
            f(y, self.nat)


ELEMENTWISE = {'exp', 'log', 'sin', 'cos', 'np.abs', 'log10', 'log2', 'np.log10', 'math.log10'}
REDUCERS = {'np.unique', 'np.sum', 'np.cumsum', 'np.diff', 'np.argsort', 'np.max', 'np.min', 'np.mean', 'np.argmax', 'np.argmin', 'np.median', 'np.prod'}


class Model:
    """one interpretation of the free symbols"""

    def __init__(self, seed, flags, watch=frozenset()):
        self.seed, self.fl = seed, flags
        self.watch, self.seen = watch, {}
        self.base = {}
        self.layers = [self.base]
        self.env = {}
        self.closed = {}
        self.steps = 0
        self.fine = self.h('mode') % 3        # 0, 1: whole numbers; 2: fractions
        self.scale = self.h('scale') % 4
        self.L = (0, 1, 2, 3, 4, 5)[self.h('len') % 6] if self.h('same') % 5 < 3 else None

    # ------------------------------------------------------------ free symbols
    def h(self, *what):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + what).encode(), digest_size=7).digest(), 'big')

    def free(self, what, shape):
        key = hashlib.blake2b(repr(what).encode(), digest_size=9).hexdigest()
        return O(key, shape)

    def is_none(self, o):
        return o.shape in self.fl.none and self.h('none', o.key) % 4 == 0

    def num(self, o):
        if self.is_none(o):
            raise Skip('None in arithmetic')
        if o.shape in self.fl.seq:
            return [self.num1(x) for x in self.elems(o)]
        return self.num1(o)

    def num1(self, o):
        if self.is_none(o):
            raise Skip('None in arithmetic')
        if o.shape in self.fl.seq:
            return [self.num1(x) for x in self.elems(o)]
        h = self.h('num', o.key)
        whole = o.shape in self.fl.int or o.shape in self.fl.nat or self.fine < 2
        nat = o.shape in self.fl.nat
        if h % 100 < 14 and self.fl.numbers:
            p = self.fl.numbers[(h // 100) % len(self.fl.numbers)] + ((h // 7919) % 3 - 1 if h % 2 else 0)
            if (not whole or p.denominator == 1) and (not nat or p >= 0):
                return p
        k = (h // 128) % 10
        r = (h // 1280)
        if self.scale == 0:                   # a world of many ties
            return Fraction(r % 3 + (1 if nat else 0), 1 if whole else 2)
        if whole:
            v = Fraction(r % (3 if k < 3 else 9 if k < 7 else 40))
        else:
            v = Fraction(r % 97, 8) if k < 7 else Fraction(r % 400, 16)
        if not nat and (h // 3) % 9 == 0:
            v = -v
        return v

    def string(self, o):
        h = self.h('str', o.key)
        if self.fl.strings and h % 3 < 2 and o.shape in self.fl.str:
            return self.fl.strings[(h // 3) % len(self.fl.strings)]
        return ('s%s', 'D%s/x.e', ' S%s.b ')[h % 3] % o.key[:6]

    def length_of(self, o):
        if self.is_none(o):
            raise Skip('length of None')
        if self.L is not None:
            return self.L
        return self.h('len', o.key) % 6

    def elems(self, o):
        return [self.at(o, i) for i in range(self.length_of(o))]

    def at(self, o, k):
        if isinstance(k, (int, Fraction)) and not isinstance(k, bool):
            if Fraction(k).denominator != 1:
                raise Skip('fractional index')
            k = int(k)
            if o.shape in self.fl.seq:
                n = self.length_of(o)
                if k < 0:
                    k += n
                if not 0 <= k < n:
                    raise Skip('index out of range')
            return self.free((o.key, 'at', k), o.shape + '[]')
        if isinstance(k, str):
            return self.free((o.key, 'at', k), o.shape + '.' + k)
        return self.free((o.key, 'at', self.canon(k)), o.shape + '[]')

    # ------------------------------------------------------------ canonical values
    def canon(self, v):
        if isinstance(v, bool) or isnum(v):
            if isinstance(v, float):
                if v != v or v in (math.inf, -math.inf):
                    raise Skip('not finite')
                f = Fraction(v).limit_denominator(10 ** 6)
                return ('n', str(f)) if abs(float(f) - v) <= 1e-9 * max(1.0, abs(v)) else ('n', '%.9g' % v)
            return ('n', str(Fraction(v)))
        if isinstance(v, str):
            return ('s', v)
        if v is None:
            return ('none',)
        if isinstance(v, (list, tuple)) and v is not NOTHING:
            return ('l',) + tuple(self.canon(x) for x in v)
        if v is NOTHING:
            return NOTHING
        if isinstance(v, O):
            if self.is_none(v):
                return ('none',)
            if v.shape in self.fl.seq and v.shape not in self.fl.map:
                return ('l',) + tuple(self.canon(x) for x in self.elems(v))
            if v.shape in self.fl.num:
                return self.canon(self.num(v))
            if v.shape in self.fl.str:
                return ('s', self.string(v))
            return ('o', v.key)
        if isinstance(v, P):
            return ('p', v.o.key, str(Fraction(v.k)))
        if isinstance(v, Rec):
            return ('r', v.cls) + tuple((k, self.canon(x)) for k, x in sorted(v.f.items()))
        if isinstance(v, D):
            return ('d',) + tuple(sorted((k, self.canon(x)) for k, (kk, x) in v.d.items()))
        if isinstance(v, Set):
            return ('set',) + tuple(sorted(self.canon(x) for x in v.x))
        if isinstance(v, Lam):
            out = []
            for i in range(4):
                try:
                    out.append(self.canon(self.apply(v, self.free(('probe', i), 'probe'))))
                except Skip:
                    out.append('skip')
            return ('f',) + tuple(out)
        if isinstance(v, bytes):
            return ('b', v.hex())
        raise Skip('value %r' % (v,))

    def same(self, a, b):
        if isinstance(a, O) and isinstance(b, O):
            return a.key == b.key or self.canon(a) == self.canon(b)
        if isinstance(b, O):
            a, b = b, a
        if isinstance(a, O):
            if self.is_none(a) or b is None:
                return self.is_none(a) and b is None
            if isnum(b):
                v = self.num(a)
                return isnum(v) and self.close(v, b)
            if isinstance(b, str):
                return self.string(a) == b
            if isinstance(b, list):
                return self.same(self.elems(a), b)
        if isnum(a) and isnum(b):
            return self.close(a, b)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Rec) and isinstance(b, Rec):
            return a.cls == b.cls and set(a.f) == set(b.f) and all(self.same(x, b.f[k]) for k, x in a.f.items())
        if isinstance(a, D) and isinstance(b, D):
            return set(a.d) == set(b.d) and all(self.same(x[1], b.d[k][1]) for k, x in a.d.items())
        return self.canon(a) == self.canon(b)

    def close(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            if a != a or b != b:
                raise Skip('nan')
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        return a == b

    # ------------------------------------------------------------ evaluation
    def is_closed(self, x):
        r = self.closed.get(x)
        if r is None:
            r = _CLOSED.get(x)
            if r is None:
                r = _CLOSED[x] = not _open_levels(x)
            self.closed[x] = r
        return r

    def ev(self, x):
        op = x.op
        if op == 'num':
            return x.a[0]
        if op == 'const':
            v = x.a[0]
            if v is Ellipsis:
                return self.free(('ellipsis',), 'ellipsis')
            return v
        memo = self.base if self.is_closed(x) else self.layers[-1]
        r = memo.get(x)
        if r is not None:
            if r[0]:
                return r[1]
            raise Skip(r[1])
        self.steps += 1
        if self.steps > 60000:
            raise Skip('too long')
        try:
            v = getattr(self, 'e_' + op, self.other)(x)
        except Skip as e:
            memo[x] = (False, str(e))
            raise
        except (OverflowError, ZeroDivisionError, ValueError, TypeError, KeyError, IndexError, AttributeError) as e:
            memo[x] = (False, repr(e))
            raise Skip(repr(e))
        memo[x] = (True, v)
        if x in self.watch:
            self.seen.setdefault(x, set()).add(self.note(x, v))
        return v

    def note(self, x, v):
        """what a model exercised of a subterm that only one side has"""
        if isinstance(v, bool):
            return v
        if isinstance(v, list):
            if v and all(isinstance(y, bool) for y in v):
                return 'mixed' if len(set(v)) > 1 else v[0]
            return 'some' if v else 'empty'
        if x.op in ('min', 'max'):
            try:
                vs = [self.n(y) for y in x.a[0]]
                best = [i for i, y in enumerate(vs) if not isinstance(y, list) and not isinstance(v, list) and self.close(y, v)]
                return best[0] if len(best) == 1 else 'tie'
            except (Skip, TypeError):
                return 'tie'
        if x.op in ('floor', 'round'):
            try:
                y = self.n(x.a[0])
                return 'exact' if isinstance(y, list) or self.close(y, v) else 'up' if v > y else 'down'
            except (Skip, TypeError):
                return 'exact'
        return 'value'

    def bound(self, lvl, value):
        return _Bound(self, {lvl: value})

    def n(self, x):
        """number (or array of numbers)"""
        v = self.ev(x)
        return self.tonum(v)

    def tonum(self, v):
        if isinstance(v, O):
            return self.num(v)
        if isinstance(v, bool):
            return int(v)
        if isnum(v):
            return v
        if isinstance(v, list):
            return [self.tonum(y) for y in v]
        raise Skip('not a number')

    def s1(self, x):
        v = self.n(x)
        if isinstance(v, list):
            raise Skip('array where a number is expected')
        return v

    def count(self, x):
        v = self.s1(x)
        if isinstance(v, float):
            v = self.near(v)
        if Fraction(v).denominator != 1:
            raise Skip('fractional count')
        if v > CAP:
            raise Skip('too many')
        return max(int(v), 0)

    def near(self, v):
        if isinstance(v, float):
            r = round(v)
            if abs(v - r) < 1e-9 * max(1, abs(v)):
                return r
        return v

    def lst(self, x):
        return self.tolist(self.ev(x))

    def tolist(self, v):
        if isinstance(v, O):
            return self.elems(v)
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, D):
            return [k for k, _ in v.d.values()]
        if isinstance(v, Set):
            return v.x
        raise Skip('not a sequence')

    def b(self, x):
        v = self.ev(x)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isnum(v):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (str, list)):
            return len(v) > 0
        if isinstance(v, D):
            return len(v.d) > 0
        if isinstance(v, Set):
            return len(v.x) > 0
        if isinstance(v, O):
            if self.is_none(v):
                return False
            if v.shape in self.fl.seq and v.shape not in self.fl.map:
                return self.length_of(v) > 0
            if v.shape in self.fl.num:
                return self.num(v) != 0
            if v.shape in self.fl.str:
                return self.string(v) != ''
            return self.h('truth', v.key) % 2 == 0
        return True

    def lift(self, f, *vs):
        """element-wise application"""
        if any(isinstance(v, list) for v in vs):
            ns = {len(v) for v in vs if isinstance(v, list)}
            if len(ns) != 1:
                raise Skip('shapes')
            k = ns.pop()
            return [self.lift(f, *[v[i] if isinstance(v, list) else v for v in vs]) for i in range(k)]
        return f(*vs)

    # atoms
    def e_param(self, x):
        return self.free(('param', str(x.a[0])), 'p:' + str(x.a[0]))

    def e_idx(self, x):
        return Fraction(self.h('idx', x.a[0]) % 4)

    def e_glob(self, x):
        return self.free(('glob', str(x.a[0])), 'g:' + str(x.a[0]))

    def e_bv(self, x):
        if x.a[0] not in self.env:
            raise Skip('unbound')
        return self.env[x.a[0]]

    def e_larg(self, x):
        return self.ev(x.a[0])

    def e_lv(self, x):
        k = ('lv', x.a[0], x.a[1])
        if k not in self.env:
            raise Skip('unbound')
        return self.env[k]

    def e_attr(self, x):
        v = self.ev(x.a[0])
        if isinstance(v, Rec) and x.a[1] in v.f:
            return v.f[x.a[1]]
        if isinstance(v, O):
            if self.is_none(v):
                raise Skip('attribute of None')
            if self.scale == 0 and v.shape.endswith('[]'):     # elements of a collection that agree in an attribute
                return self.free((v.shape, 'attr', x.a[1], self.h('tie', v.key, x.a[1]) % 3), v.shape + '.' + str(x.a[1]))
            return self.free((v.key, 'attr', x.a[1]), v.shape + '.' + str(x.a[1]))
        return self.free(('attr', x.a[1], self.canon(v)), '?.' + str(x.a[1]))

    # pointers
    def e_padd(self, x):
        p, k = self.ev(x.a[0]), self.s1(x.a[1])
        if isinstance(p, P):
            return P(p.o, p.k + k)
        if isinstance(p, O):
            return P(p, k)
        raise Skip('pointer')

    def e_load(self, x):
        p, k = self.ev(x.a[0]), self.ev(x.a[1])
        if isinstance(k, O):
            k = self.num(k)
        if isinstance(p, P):
            if not isnum(k):
                raise Skip('offset')
            p, k = p.o, p.k + k
        if isinstance(p, O):
            return self.free((p.key, 'at', int(k) if isnum(k) and Fraction(k).denominator == 1 else self.canon(k)), p.shape + '[]')
        return self.free(('load', self.canon(p), self.canon(k)), '?[]')

    # arithmetic
    def e_poly(self, x):
        out = Fraction(0)
        for m, c in x.a[0]:
            v = c
            for f, e in m:
                y = self.n(f)
                v = self.lift(self.times, v, self.lift(lambda z: self.pw(z, e), y))
            out = self.lift(self.plus, out, v)
        return out

    def times(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return float(a) * float(b)
        return a * b

    def plus(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return float(a) + float(b)
        return a + b

    def pw(self, z, e):
        if e == 1:
            return z
        if z == 0 and e < 0:
            raise Skip('division by zero')
        if e.denominator == 1:
            return z ** int(e) if isinstance(z, float) else Fraction(z) ** int(e)
        if z < 0:
            raise Skip('root of a negative number')
        return float(z) ** float(e)

    def e_floor(self, x):
        return self.lift(lambda v: Fraction(math.floor(self.near(v))), self.n(x.a[0]))

    def e_round(self, x):
        return self.lift(lambda v: Fraction(round(self.near(v))), self.n(x.a[0]))

    def e_abs(self, x):
        return self.lift(abs, self.n(x.a[0]))

    def e_min(self, x):
        return self.extr(x, min)

    def e_max(self, x):
        return self.extr(x, max)

    def extr(self, x, f):
        vs = [self.n(y) for y in x.a[0]]
        return self.lift(lambda *z: f(z), *vs)

    def e_pow(self, x):
        a, b = self.n(x.a[0]), self.n(x.a[1])

        def f(u, v):
            if isinstance(v, Fraction) and v.denominator == 1 and abs(v) < 40:
                if u == 0 and v < 0:
                    raise Skip('division by zero')
                return u ** int(v) if isinstance(u, float) else Fraction(u) ** int(v)
            if u <= 0:
                raise Skip('power')
            return float(u) ** float(v)
        return self.lift(f, a, b)

    def e_mod(self, x):
        v = self.ev(x.a[0])
        if isinstance(v, str):
            return self.opaque(x, 'str')
        a, b = self.tonum(v), self.n(x.a[1])

        def f(u, w):
            if w == 0:
                raise Skip('division by zero')
            return u - w * math.floor(u / w)
        return self.lift(f, a, b)

    def e_cast(self, x):
        v = self.ev(x.a[0])
        d = x.a[1].a[0] if x.a[1].op == 'glob' else None
        if d in ('int', 'np.int64', 'np.uint64', 'np.int32', 'np.uint8', 'np.intp', 'np.uint32') and not isinstance(v, str):
            return self.lift(lambda z: Fraction(math.trunc(self.near(z))), self.tonum(v))
        if d in ('float', 'np.float32', 'np.float64') and not isinstance(v, str):
            return self.tonum(v) if not isinstance(v, O) or v.shape in self.fl.num else v
        if d == 'bool':
            return self.tobool(v)
        return self.free(('cast', d, self.canon(v)), shape_of(x.a[0]) or 'cast')

    # conditions
    def near0(self, v):
        return abs(v) < 1e-9 if isinstance(v, float) else v == 0

    def e_pos(self, x):
        return self.lift(lambda v: not self.near0(v) and v > 0, self.n(x.a[0]))

    def e_nn(self, x):
        return self.lift(lambda v: self.near0(v) or v > 0, self.n(x.a[0]))

    def e_eq(self, x):
        a, b = self.ev(x.a[0]), self.ev(x.a[1])
        if isinstance(a, O) and isinstance(b, O):
            if a.key == b.key:
                return True
            if self.is_none(a) or self.is_none(b):
                return self.is_none(a) and self.is_none(b)
            sh = (a.shape, b.shape)
            if any(s in self.fl.str for s in sh):
                return self.string(a) == self.string(b)
            if a.shape.startswith('g:') and b.shape.startswith('g:'):
                return False
            if any(s in self.fl.map for s in sh):
                return False
            return self.num(a) == self.num(b) if self.h('eq', *sorted(sh)) % 2 or any(s in self.fl.num for s in sh) else \
                self.h('eqv', *sorted((a.key, b.key))) % 4 == 0
        for u, w in ((a, b), (b, a)):
            if isinstance(u, O) and isnum(w):
                if self.is_none(u):
                    return False
                u = self.num(u)
                return self.lift(self.close, u, w)
        if isinstance(a, list) != isinstance(b, list) and (isnum(a) or isnum(b)):
            return self.lift(self.close, a, b)
        return self.same(a, b)

    def kleene(self, xs, absorb):
        skip = None
        for y in xs:
            try:
                if self.b(y) is absorb:
                    return absorb
            except Skip as e:
                skip = e
        if skip is not None:
            raise skip
        return not absorb

    def e_and(self, x):
        return self.kleene(x.a[0], False)

    def e_or(self, x):
        return self.kleene(x.a[0], True)

    def e_not(self, x):
        return not self.b(x.a[0])

    def e_ite(self, x):
        c = self.ev(x.a[0])
        if isinstance(c, list):
            raise Skip('array condition')
        return self.ev(x.a[1] if self.tobool(c) else x.a[2])

    def e_isnone(self, x):
        v = self.ev(x.a[0])
        return v is None or isinstance(v, O) and self.is_none(v)

    def e_truth(self, x):
        return self.b(x.a[0])

    def e_isinst(self, x):
        v = self.ev(x.a[0])
        T = x.a[1].a[0] if x.a[1].op == 'glob' else None
        if isinstance(v, O) and self.is_none(v):
            return False
        if isinstance(v, bool):
            return T in ('bool', 'int')
        if isnum(v):
            return T in ('float', 'int') and (T == 'float' or Fraction(v).denominator == 1)
        if isinstance(v, (str, list, D)) and T in ('str', 'list', 'dict', 'tuple', 'int', 'float', 'bool'):
            return {'str': str, 'list': list, 'dict': D}.get(T, int) is type(v)
        if isinstance(v, O):
            return self.h('isinst', v.key, self.canon(self.ev(x.a[1]))) % 8 != 0
        return self.h('isinst', self.canon(v), self.canon(self.ev(x.a[1]))) % 8 != 0

    def e_in(self, x):
        k, c = self.ev(x.a[0]), self.ev(x.a[1])
        if isinstance(c, (list, Set)):
            return any(self.same(k, y) for y in self.tolist(c))
        if isinstance(c, D):
            return self.dkey(k, c) in c.d
        if isinstance(c, str):
            return isinstance(k, str) and k in c
        if isinstance(c, O) and c.shape in self.fl.seq and c.shape not in self.fl.map:
            return any(self.same(k, y) for y in self.elems(c))
        return self.h('in', self.canon(k), self.canon(c)) % 3 != 0

    # sequences
    def e_seq(self, x):
        out = []
        for k, y in x.a[0]:
            if k == 'e':
                out.append(self.ev(y))
            else:
                out.extend(self.lst(y))
        return out

    def e_len(self, x):
        v = self.ev(x.a[0])
        if isinstance(v, O):
            return Fraction(self.length_of(v))
        if isinstance(v, str):
            return Fraction(len(v))
        return Fraction(len(self.tolist(v)))

    def e_item(self, x):
        v, k = self.ev(x.a[0]), None
        if x.a[1].op == 'sl':
            return self.cut(v, x.a[1].a)
        k = self.ev(x.a[1])
        return self.item(v, k)

    def dkey(self, k, d=None):
        """a dictionary key; free symbols may coincide"""
        if isinstance(k, O) and not self.is_none(k) and k.shape not in self.fl.str | self.fl.seq | self.fl.num | self.fl.map:
            if d is not None and d.d and all(c[0] == 's' for c in d.d):
                names = sorted(c[1] for c in d.d)
                return ('s', (names + ['other'])[self.h('key', k.key) % (len(names) + 1)])
            return self.canon(self.num(k))
        return self.canon(k)

    def item(self, v, k):
        if isinstance(k, O) and (isinstance(v, (list, str)) or isinstance(v, O) and v.shape in self.fl.seq and v.shape not in self.fl.map):
            k = self.num(k)
        if isinstance(v, D):
            c = self.dkey(k, v)
            if c in v.d:
                return v.d[c][1]
            raise Skip('no such key')
        if isinstance(k, list):
            if k and all(isinstance(y, bool) for y in k):
                vs = self.tolist(v)
                if len(vs) != len(k):
                    raise Skip('mask')
                return [y for y, m in zip(vs, k) if m]
            if k and all(isnum(y) for y in k):
                return self.free(('fancy', self.canon(v), self.canon(k)), '[]')
        if isinstance(v, O):
            if self.is_none(v):
                raise Skip('element of None')
            return self.at(v, k)
        if isinstance(v, Rec) and isnum(k):
            return list(v.f.values())[int(k)]
        if isinstance(v, (list, str)):
            if isinstance(k, bool) or not isnum(k):
                raise Skip('index')
            if Fraction(k).denominator != 1:
                raise Skip('fractional index')
            i = int(k)
            if not -len(v) <= i < len(v):
                raise Skip('index out of range')
            return v[i]
        return self.free(('item', self.canon(v), self.canon(k)), '?[]')

    def cut(self, v, a):
        f = lambda y: None if y is t.NONE else int(self.count_signed(y))
        if isinstance(v, O) and v.shape not in self.fl.seq:
            return self.free((v.key, 'slice', tuple(f(y) for y in a)), v.shape)
        vs = v if isinstance(v, str) else self.tolist(v)
        lo, hi, st = (f(y) for y in a)
        if st is not None and st != 1:
            return vs[slice(lo, hi, st)]
        if lo is not None and lo > len(vs) or hi is not None and hi > len(vs) or lo is not None and hi is not None and 0 <= hi < lo:
            raise Skip('slice beyond the end')
        return vs[slice(lo, hi, st)]

    def count_signed(self, x):
        v = self.near(self.s1(x))
        if Fraction(v).denominator != 1:
            raise Skip('fractional count')
        return v

    def e_slice(self, x):
        return self.cut(self.ev(x.a[0]), x.a[1:])

    def e_range(self, x):
        lo, n, st = self.s1(x.a[0]), self.count(x.a[1]), self.s1(x.a[2])
        return [lo + i * st for i in range(n)]

    def e_arr(self, x):
        return self.ev(x.a[0])

    e_copy = e_maybeview = e_contig = e_perm0 = e_arr

    def e_perm(self, x):
        return sorted(self.lst(x.a[0]), key=lambda v: repr(self.canon(v)))

    def e_reversed(self, x):
        return list(reversed(self.lst(x.a[0])))

    def e_zip(self, x):
        return [list(z) for z in zip(*[self.lst(y) for y in x.a[0]])]

    def e_enum(self, x):
        k = self.s1(x.a[1])
        return [[k + i, v] for i, v in enumerate(self.lst(x.a[0]))]

    def e_flat(self, x):
        return [z for y in self.lst(x.a[0]) for z in self.tolist(y)]

    def e_set(self, x):
        return self.mkset([self.ev(y) for y in x.a[0]])

    def e_setof(self, x):
        return self.mkset(self.lst(x.a[0]))

    def mkset(self, vs):
        d = {}
        for v in vs:
            d.setdefault(self.canon(v), v)
        return Set([d[k] for k in sorted(d, key=repr)])

    def e_comb2(self, x):
        return [list(p) for p in itertools.combinations(self.lst(x.a[0]), 2)]

    def okey(self, v):
        """something sortable"""
        if isinstance(v, O):
            if v.shape in self.fl.str:
                return (1, self.string(v))
            return self.okey(self.num(v))
        if isinstance(v, bool) or isnum(v):
            return (0, Fraction(v) if not isinstance(v, float) else Fraction(v).limit_denominator(10 ** 9))
        if isinstance(v, str):
            return (1, v)
        if isinstance(v, list):
            return (2, tuple(self.okey(y) for y in v))
        raise Skip('not comparable')

    def keyed(self, vs, k):
        if k is t.NONE:
            return [self.okey(v) for v in vs]
        f = self.ev(k)
        if not isinstance(f, Lam):
            return [self.okey(self.free(('calld', self.canon(f), self.canon(v)), 'key')) for v in vs]
        return [self.okey(self.apply(f, v)) for v in vs]

    def e_sorted(self, x):
        vs = self.lst(x.a[0])
        ks = self.keyed(vs, x.a[1])
        r = self.b(x.a[2])
        idx = sorted(range(len(vs)), key=lambda i: ks[i], reverse=r)
        return [vs[i] for i in idx]

    def best(self, x, low):
        vs = self.lst(x.a[0])
        if not vs:
            raise Skip('extremum of nothing')
        ks = self.keyed(vs, x.a[1])
        b = 0
        for i in range(1, len(vs)):
            if ks[i] < ks[b] if low else ks[i] > ks[b]:
                b = i
        return vs[b]

    def e_minby(self, x):
        return self.best(x, True)

    def e_maxby(self, x):
        return self.best(x, False)

    def nums(self, x):
        v = self.n(x)
        if not isinstance(v, list):
            raise Skip('not a sequence')
        flat = []
        for y in v:
            flat.extend(y if isinstance(y, list) else [y])
        return flat

    def e_maxof(self, x):
        v = self.nums(x.a[0])
        if not v:
            raise Skip('extremum of nothing')
        return max(v)

    def e_minof(self, x):
        v = self.nums(x.a[0])
        if not v:
            raise Skip('extremum of nothing')
        return min(v)

    def total(self, vs):
        out = Fraction(0)
        for v in vs:
            out = self.lift(self.plus, out, v)
        return out

    def e_sumof(self, x):
        return self.total(self.n(x.a[0]))

    def e_anyof(self, x):
        return any(self.tobool(v) for v in self.lst(x.a[0]))

    def e_notof(self, x):
        return [not self.tobool(v) for v in self.lst(x.a[0])]

    def e_inserted(self, x):
        v = list(self.lst(x.a[0]))
        v.insert(int(self.count_signed(x.a[1])), self.ev(x.a[2]))
        return v

    def e_repeat(self, x):
        a, b = self.ev(x.a[0]), self.ev(x.a[1])
        if isinstance(b, (list, str)):
            a, b = b, a
        if isinstance(b, O):
            b = self.num(b)
        if isinstance(a, (list, str)) and isnum(b) and Fraction(b).denominator == 1 and b < 20:
            return a * int(b)
        raise Skip('repeat')

    # binders
    def each(self, lvl, n):
        for i in range(n):
            with self.bound(lvl, Fraction(i)):
                yield i

    def e_collect(self, x):
        lvl, n, body, cond = x.a
        out = []
        for i in self.each(lvl, self.count(n)):
            if cond is t.TRUE or self.b(cond):
                out.append(self.ev(body))
        return out

    def e_sum(self, x):
        lvl, n, body = x.a
        return self.total([self.n(body) for i in self.each(lvl, self.count(n))])

    def e_any(self, x):
        lvl, n, cond = x.a
        skip = None
        for i in self.each(lvl, self.count(n)):
            try:
                if self.b(cond):
                    return True
            except Skip as e:
                skip = e
        if skip:
            raise skip
        return False

    def e_lambda(self, x):
        return Lam(x, dict(self.env))

    def apply(self, f, v):
        with _Bound(self, {f.term.a[0]: v}, f.env):
            return self.ev(f.term.a[2])

    def e_dictc(self, x):
        raise Skip('dictc')

    def e_groupby(self, x):
        lvl, n, k, v, c = x.a
        d = D()
        for i in self.each(lvl, self.count(n)):
            if self.b(c):
                kk = self.ev(k)
                d.d.setdefault(self.dkey(kk), (kk, []))[1].append(self.ev(v))
        return d

    def e_firsthit(self, x):
        n = CAP if x.a[0] is t.NONE else self.count(x.a[0])
        lam = x.a[1]
        for i in self.each(lam.a[0], n):
            if self.b(lam.a[2]):
                return Fraction(i)
        if x.a[0] is t.NONE:
            raise Skip('endless search')
        return Fraction(n)

    def e_lasthit(self, x):
        n = self.count(x.a[0])
        lam = x.a[1]
        r = None
        for i in self.each(lam.a[0], n):
            if self.b(lam.a[2]):
                r = Fraction(i)
        if r is None:
            raise Skip('no hit')
        return r

    def e_gloop(self, x):
        n, lam, k = x.a
        bound = None if n is t.NONE else self.count(n)
        la = lam.a[2]
        if la.op != 'looparg':
            raise Skip('loop')
        ex, stop, vs = la.a[0], la.a[1], la.a[2]
        depth = _loop_depth(la)
        closed = la.a[3] if len(la.a) > 3 else None
        lvl = lam.a[0]
        with _Bound(self, {lvl: Fraction(0)}):
            state = [self.ev(i) for i, u in vs]
        i = 0
        while True:
            if bound is not None and i >= bound:
                break
            if i > CAP:
                raise Skip('endless loop')
            env = {lvl: Fraction(i)}
            env.update({('lv', depth, j): s for j, s in enumerate(state)})
            with _Bound(self, env):
                if self.b(ex):
                    break
                st = self.b(stop)
                state = [self.ev(u) for _, u in vs]
            if st:
                break
            i += 1
        if closed is not None:
            env = {lvl: Fraction(i)}
            env.update({('lv', depth, j): s for j, s in enumerate(state)})
            with _Bound(self, env):
                return self.ev(closed)
        return state[int(k.a[0])]

    def e_when(self, x):
        return self.ev(x.a[1]) if self.b(x.a[0]) else NOTHING

    # dictionaries, records, strings
    def e_dict(self, x):
        d = D()
        for k, v in x.a[0]:
            if k.op == 'splice':
                y = self.ev(v)
                if not isinstance(y, D):
                    y = self.mapping(y)
                for c, kv in y.d.items():
                    d.d[c] = kv
            else:
                kk = self.ev(k)
                d.d[self.canon(kk)] = (kk, self.ev(v))
        return d

    def mapping(self, o):
        """a free symbol used as a dictionary: an entry for each of the strings in sight, and one more"""
        if not isinstance(o, O):
            raise Skip('not a dictionary')
        d = D()
        for k in self.fl.strings + ['other']:
            if self.h('in', ('s', k), self.canon(o)) % 3 != 0:
                d.d[('s', k)] = (k, self.at(o, k))
        return d

    def e_dictof(self, x):
        d = D()
        for p in self.lst(x.a[0]):
            k, v = self.item(p, Fraction(0)), self.item(p, Fraction(1))
            d.d[self.dkey(k)] = (k, v)
        return d

    def e_keys(self, x):
        v = self.ev(x.a[0])
        if isinstance(v, D):
            return [k for k, _ in v.d.values()]
        if isinstance(v, O):
            return self.free((v.key, 'keys'), v.shape + '.keys')
        raise Skip('keys')

    def e_ditems(self, x):
        v = self.ev(x.a[0])
        if isinstance(v, D):
            return [[k, y] for k, y in v.d.values()]
        if isinstance(v, O):
            ks = self.elems(self.free((v.key, 'keys'), v.shape + '.keys'))
            return [[k, self.at(v, self.string(k) if k.shape in self.fl.str else k)] for k in ks]
        raise Skip('items')

    def e_without(self, x):
        v, k = self.ev(x.a[0]), self.canon(self.ev(x.a[1]))
        if isinstance(v, O):
            v = self.mapping(v)
        if isinstance(v, D):
            return D({c: kv for c, kv in v.d.items() if c != k})
        raise Skip('without')

    def e_rec(self, x):
        return Rec(str(x.a[0]), {k: self.ev(v) for k, v in x.a[1]})

    def e_fstr(self, x):
        out = ''
        for p in x.a[0]:
            if isinstance(p, str):
                out += p
                continue
            v, conv, spec = p
            v = self.ev(v)
            if isinstance(v, O):
                v = self.num(v) if v.shape in self.fl.num else self.string(v)
            if isinstance(spec, t.T):
                spec = self.ev(spec)
            if isinstance(v, (bool, str)) and not conv and not spec:
                out += str(v)
                continue
            try:
                w = v
                if isinstance(v, Fraction):
                    w = int(v) if v.denominator == 1 else float(v)
                if conv:
                    w = {'r': repr, 's': str, 'a': ascii}[conv](w)
                out += format(w, spec or '')
            except Exception:
                out += '{%r!%s:%s}' % (self.canon(v), conv, spec)
        return out

    def strs(self, xs):
        out = []
        for v in xs:
            if isinstance(v, O):
                if self.is_none(v):
                    raise Skip('None as text')
                v = self.string(v)
            if not isinstance(v, str):
                raise Skip('not text')
            out.append(v)
        return out

    def e_call(self, x):
        n, args, kw = x.a
        if n in ELEMENTWISE and len(args) == 1 and not kw:
            f = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'log': math.log, 'np.abs': abs}.get(n, math.log10 if n.endswith('10') else math.log2)
            return self.lift(lambda v: f(float(v)) if f is not abs else abs(v), self.n(args[0]))
        if n in REDUCERS and len(args) == 1 and not kw:
            v = self.n(args[0])
            if isinstance(v, list) and all(isnum(y) for y in v):
                r = self.reduce(n, v)
                if r is not None:
                    return r
        if n.startswith('os.path.') and n.split('.')[-1] in ('join', 'basename', 'dirname', 'splitext') and not kw:
            import posixpath
            r = getattr(posixpath, n.split('.')[-1])(*self.strs([self.ev(y) for y in args]))
            return list(r) if isinstance(r, tuple) else r
        return self.opaque(x, n + '()')

    def reduce(self, n, v):
        if n == 'np.sum':
            return self.total(v)
        if n == 'np.cumsum':
            return list(itertools.accumulate(v, self.plus))
        if n == 'np.diff':
            return [self.plus(b, self.times(-1, a)) for a, b in zip(v, v[1:])]
        if n == 'np.argsort':
            return [Fraction(i) for i in sorted(range(len(v)), key=lambda i: v[i])]
        if n == 'np.unique':
            return sorted(set(v))
        if not v:
            raise Skip('reduction of nothing')
        if n == 'np.max':
            return max(v)
        if n == 'np.min':
            return min(v)
        if n == 'np.mean':
            return self.times(self.total(v), Fraction(1, len(v)))
        if n == 'np.argmax':
            return Fraction(max(range(len(v)), key=lambda i: (v[i], -i)))
        if n == 'np.argmin':
            return Fraction(min(range(len(v)), key=lambda i: (v[i], i)))
        return None

    def e_mcall(self, x):
        n, args, kw = x.a
        if n in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'split', 'startswith', 'endswith', 'replace') and not kw:
            v = self.ev(args[0])
            if isinstance(v, O) and v.shape in self.fl.str or isinstance(v, str):
                return getattr(self.strs([v])[0], n)(*self.strs([self.ev(y) for y in args[1:]]))
        return self.opaque(x, n + '()')

    def e_app(self, x):
        return self.opaque(x, str(x.a[0]) + '()')

    def opaque(self, x, shape):
        return self.free((x.op,) + self.pieces(x.a), shape)

    def pieces(self, a):
        out = []
        for y in a:
            if isinstance(y, t.T):
                out.append(self.canon(self.ev(y)))
            elif isinstance(y, tuple):
                out.append(self.pieces(y))
            else:
                out.append(repr(y))
        return tuple(out)

    def other(self, x):
        if x.op in NO_MEANING:
            raise Skip(x.op)
        return self.opaque(x, x.op)


NO_MEANING = {'phi', 'phicol', 'idxcol', 'ref', 'lstate', 'looparg', 'undef', 'unknown', 'calld', 'ptr', 'whileloop',
              'raises', 'anyiter', 'oneof', 'exception', 'fun', 'deep'}


class _Bound:
    def __init__(self, m, new, env=None):
        self.m, self.new, self.env = m, new, env

    def __enter__(self):
        m = self.m
        self.old = m.env
        m.env = dict(m.env if self.env is None else self.env)
        m.env.update(self.new)
        m.layers.append({})

    def __exit__(self, *a):
        self.m.env = self.old
        self.m.layers.pop()


_CLOSED = {}
_LEVELS = {}


def _open_levels(x):
    """levels of the binders x depends on (bound variables free in x), loop variables included"""
    r = _LEVELS.get(x)
    if r is not None:
        return r
    if x.op == 'bv':
        r = frozenset([x.a[0]])
    elif x.op == 'lv':
        r = frozenset([('lv', x.a[0], x.a[1])])
    else:
        r = frozenset()
        for c in t._walk_children(x.a):
            r |= _open_levels(c)
        if x.op in t.BINDERS:
            r -= {x.a[0]}
    _LEVELS[x] = r
    return r


def _loop_depth(la):
    """number of the state variables a loop owns: those of nested loops aside, the innermost"""
    ds = {d for d in _open_lv(la.a[0]) | _open_lv(la.a[1])}
    for i, u in la.a[2]:
        ds |= _open_lv(u)
    return min(ds) if ds else 0


_LV = {}


def _open_lv(x):
    r = _LV.get(x)
    if r is not None:
        return r
    if x.op == 'lv':
        r = frozenset([x.a[0]])
    else:
        r = frozenset()
        for c in t._walk_children(x.a):
            r |= _open_lv(c)
        if x.op == 'gloop' and x.a[1].a[2].op == 'looparg':
            r -= {_loop_depth(x.a[1].a[2])}
    _LV[x] = r
    return r


def exercised(x, how):
    """the models took a subterm through all it can do: both outcomes of a condition, every winner of an extremum, ..."""
    if x.op in t.BOOL_OPS:
        return 'mixed' in how or {True, False} <= how
    if x.op in ('min', 'max'):
        return all(i in how for i in range(len(x.a[0]))) or how == {'some', 'empty'} or how == {'some'}
    if x.op == 'floor':
        return 'down' in how or 'some' in how
    if x.op == 'round':
        return {'up', 'down'} <= how or 'some' in how
    return bool(how - {'empty'})


SILENT = {'splice', 'sl', 'glob', 'looparg', 'star', 'num', 'const', 'bv', 'larg', 'lv'}


def compare(actual, spec, given=None, facts=(), models=600, seconds=5.0, seed=1):
    """('differ'|'agree'|'unknown', number of models compared, of those within facts, subterms not exercised)"""
    fl = Flags([actual, spec, given, *facts])
    end = time.time() + seconds
    sa, sb = set(t.subterms(actual)), set(t.subterms(spec))
    watch = {x for x in sa ^ sb if x.op not in SILENT}
    seen = {x: set() for x in watch}
    ok = inside = 0
    for k in range(models):
        if time.time() > end:
            break
        m = Model((seed, k), fl, watch)
        try:
            if given is not None and not m.b(given):
                continue
        except (Skip, RecursionError):
            continue
        fact = None
        try:
            fact = all(m.b(f) for f in facts)
        except (Skip, RecursionError):
            pass
        m.seen = {}
        m.base.clear()
        m.steps = 0
        try:
            u, v = m.ev(actual), m.ev(spec)
            eq = m.same(u, v)
        except (Skip, RecursionError):
            continue
        if not eq:
            return 'differ', ok, inside, k
        ok += 1
        inside += bool(fact)
        for x, how in m.seen.items():
            seen[x] |= how
    left = [x for x in watch if not exercised(x, seen[x])]
    return ('agree' if ok >= 30 and not left else 'unknown'), ok, inside, left
