"""Hash-consed value terms and their normal forms.

A term denotes the value of an expression of the analysed program as a function of the inputs of the analysed
entry point.  The smart constructors below keep terms in a normal form (polynomials with rational exponents,
comparisons against zero, negation normal form, canonical binders for loops and comprehensions), so that two
fragments of source that compute the same value in different styles normally get the very same term.
Arithmetic is that of the reals; size_t / int arithmetic is assumed not to wrap.
"""
import hashlib
import itertools
from fractions import Fraction

_table = {}


class T:
    __slots__ = ('op', 'a', 'dg', 'lvl', 'free', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dg < other.dg

    def __reduce__(self):
        return (mk, (self.op,) + self.a)


def _digest_piece(h, x):
    if isinstance(x, T):
        h.update(b'T'); h.update(x.dg)
    elif isinstance(x, tuple):
        h.update(b'(')
        for y in x:
            _digest_piece(h, y)
        h.update(b')')
    else:
        h.update((type(x).__name__ + ':' + repr(x) + ';').encode())


def _walk_children(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _walk_children(x)


BINDERS = ('collect', 'sum', 'any', 'first', 'lambda', 'loop', 'redmax', 'redmin', 'last', 'dictc', 'groupby')


def mk(op, *a):
    key = (op, tuple((type(x), x) if isinstance(x, (bool, int, float, str, Fraction)) else x for x in a))
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.a = a
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    lvl = 0
    free = frozenset()
    for c in _walk_children(a):
        if c.lvl > lvl:
            lvl = c.lvl
        if c.free:
            free = free | c.free if free else c.free
    if op in ('idx', 'phi', 'lv'):
        free = free | {t_key(op, a)}
    _digest_piece(h, a)
    t.dg = h.digest()
    if op in BINDERS:
        lvl = max(lvl, a[0])
    elif op == 'bv':
        lvl = a[0]
    t.lvl = lvl
    t.free = free
    _table[key] = t
    return t


def t_key(op, a):
    return (op,) + tuple(a)


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, Fraction):
        return mk('num', x)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('const', repr(x))
        return mk('num', Fraction(repr(x)))
    return mk('num', Fraction(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk('const', True)
FALSE = mk('const', False)
NONE = mk('const', None)


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk('const', v)
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, complex):
        return mk('const', repr(v))
    raise TypeError(v)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.a[0]


def is_const(t):
    return t.op in ('num', 'const')


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'num':
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=_monokey)))


def _monokey(item):
    m, c = item
    return tuple((f.dg, e) for f, e in m)


def _mono_mul(m1, m2):
    d = dict(m1)
    for f, e in m2:
        d[f] = d.get(f, 0) + e
    return d


def _norm_mono(d, c):
    """dict factor->exp , coeff -> poly dict (expands polynomial factors with positive integer exponents)"""
    out = [({}, c)]
    rest = {}
    expand = []
    for f, e in d.items():
        if e == 0:
            continue
        if f.op == 'num':
            # number to a fractional power
            r = _num_pow(f.a[0], e)
            if isinstance(r, Fraction):
                c = c * r
            else:
                base, ex, k = r
                c = c * k
                rest[base] = rest.get(base, 0) + ex
            continue
        if f.op == 'poly' and e.denominator == 1 and 0 < e <= 6:
            expand.append((f, int(e)))
            continue
        if f.op == 'poly' and e > 1 and e.denominator != 1:
            k = int(e)  # integer part
            if k >= 1:
                expand.append((f, k))
                e = e - k
        rest[f] = rest.get(f, 0) + e
    mono = tuple(sorted(((f, e) for f, e in rest.items() if e != 0), key=lambda fe: fe[0].dg))
    p = {mono: c}
    for f, k in expand:
        q = to_poly(f)
        for _ in range(k):
            p = _poly_mul(p, q)
    return p


def _num_pow(b, e):
    if e.denominator == 1:
        if b == 0 and e < 0:
            return Fraction(0)
        return b ** int(e)
    if b > 0 and e.denominator == 2:
        import math
        n, d = b.numerator, b.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd) ** (2 * e).numerator if (2 * e).denominator == 1 else None
    fl = e.numerator // e.denominator
    return (mk('num', b), e - fl, b ** fl)


def _poly_mul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in _norm_mono(_mono_mul(m1, m2), c1 * c2).items():
                out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c != 0}


def _poly_add(p, q, k=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + k * c
    return {m: c for m, c in out.items() if c != 0}


def is_seqlike(t):
    return t.op in ('seq', 'collect', 'flat', 'str', 'fstr', 'sorted', 'slicelist', 'concat') or \
        (t.op == 'const' and isinstance(t.a[0], (str, bytes)))


def add(a, b):
    if a.op == 'ite' and is_seqlike(a.a[1]) or b.op == 'ite' and is_seqlike(b.a[1]):
        return concat(a, b)
    if is_seqlike(a) or is_seqlike(b):
        return concat(a, b)
    if a.op == 'ptr' or a.op == 'padd':
        return padd(a, b)
    if b.op == 'ptr' or b.op == 'padd':
        return padd(b, a)
    return from_poly(_poly_add(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(_poly_add(to_poly(a), to_poly(b), -1))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def mul(a, b):
    if a.op == 'seq' or b.op == 'seq':
        return mk('repeat', a, b)
    if a.op == 'const' and isinstance(a.a[0], str) or b.op == 'const' and isinstance(b.a[0], str):
        return mk('repeat', a, b)
    return from_poly(_poly_mul(to_poly(a), to_poly(b)))


def lead(p):
    """leading coefficient (of the first monomial in canonical order)"""
    return sorted(p.items(), key=_monokey)[-1][1]


def power(a, e):
    if not is_num(e):
        if is_num(a) and a.a[0] == 1:
            return ONE
        return mk('pow', a, e)
    e = e.a[0]
    if e == 0:
        return ONE
    if e == 1:
        return a
    if is_num(a):
        if a.a[0] == 0 and e < 0:
            return mk('inf')
        r = _num_pow(a.a[0], e)
        if isinstance(r, Fraction):
            return mk('num', r)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        d = {f: x * e for f, x in m}
        if c != 1:
            cf = mk('num', c)
            if e.denominator == 1:
                cc = c ** int(e)
            elif c > 0:
                d[cf] = d.get(cf, 0) + e
                cc = Fraction(1)
            else:
                return from_poly({((a, e),): Fraction(1)})
        else:
            cc = Fraction(1)
        return from_poly(_norm_mono(d, cc))
    if e.denominator == 1 and 0 < e <= 6:
        out = {(): Fraction(1)}
        for _ in range(int(e)):
            out = _poly_mul(out, p)
        return from_poly(out)
    c = lead(p)
    if e.denominator == 1 or c > 0:
        base = from_poly({m: x / c for m, x in p.items()})
        d = {base: e}
        if e.denominator == 1:
            cc = c ** int(e)
        else:
            cc = Fraction(1)
            if c != 1:
                cf = mk('num', c)
                d[cf] = d.get(cf, 0) + e
        return from_poly(_norm_mono(d, cc))
    return from_poly({((a, e),): Fraction(1)})


def div(a, b):
    return mul(a, power(b, num(-1)))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


# integer-valued atoms -----------------------------------------------------
NAT_ATOMS = set()       # terms known to be natural numbers
NAT_PTRS = set()        # pointers and arrays whose elements are natural numbers
INT_ATOMS = set()       # terms known to be integers (declared by the front ends)
NAT_APPS = set()        # opaque functions that return natural numbers


INT_ARRAYS = set()


def is_intarr(x):
    if x in INT_ARRAYS:
        return True
    if x.op == 'call':
        if x.a[0] == 'struct.unpack' and x.a[1] and x.a[1][0].op == 'const':
            f = x.a[1][0].a[0]
            return isinstance(f, str) and f.lstrip('<>=!@0123456789') in tuple('bBhHiIlLqQ')
        return x.a[0] in ('np.flatnonzero', 'np.argsort')
    if x.op in ('item', 'slice'):
        return is_intarr(x.a[0])
    return x.op == 'range' and all(is_int(y) for y in x.a)


def is_nat(x):
    return x in NAT_ATOMS or x.op == 'load' and x.a[0] in NAT_PTRS or x.op == 'app' and x.a[0] in NAT_APPS


def is_int(t):
    if t.op == 'item':
        return is_intarr(t.a[0]) or t in INT_ATOMS
    if t.op == 'call':
        return t.a[0] in ('np.argmax', 'np.argmin') and dict(t.a[2]).get('axis', NONE) is NONE
    if t.op == 'num':
        return t.a[0].denominator == 1
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(f) for f, e in m)
                   for m, c in t.a[0])
    if t.op in ('floor', 'round', 'len', 'idx', 'bv', 'size'):
        return True
    if t.op in ('min', 'max'):
        return all(is_int(x) for x in t.a[0])
    if t.op == 'ite':
        return all(x is NONE or is_int(x) for x in t.a[1:])
    if t.op == 'sum':
        return is_int(t.a[2])
    if t.op == 'abs':
        return is_int(t.a[0])
    if t.op in ('lv', 'phicol'):
        return t.a[-1] == 'i'
    if t.op == 'load' and t.a[0] in NAT_PTRS or t.op == 'app' and t.a[0] in NAT_APPS:
        return True
    return t in INT_ATOMS


def floor(a):
    p = to_poly(a)
    ip, fp = {}, {}
    for m, c in p.items():
        mono_int = all(e.denominator == 1 and e > 0 and is_int(f) for f, e in m)
        if mono_int and c.denominator == 1:
            ip[m] = c
        elif m == ():
            fl = c.numerator // c.denominator
            if fl:
                ip[m] = Fraction(fl)
            fp[m] = c - fl
        else:
            fp[m] = c
    fp = {m: c for m, c in fp.items() if c}
    if not fp:
        return from_poly(ip)
    if list(fp) == [()]:
        return from_poly(ip)
    fpt = from_poly(fp)
    if fpt.op in ('min', 'max'):
        r = mkminmax(fpt.op, [floor(x) for x in fpt.a[0]])
    else:
        r = mk('floor', fpt)
    return from_poly(_poly_add(ip, to_poly(r)))


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    """int(x) / static_cast<size_t>(x): all truncated quantities in this code base are non-negative"""
    return floor(a)


def round_(a):
    if is_int(a):
        return a
    return mk('round', a)


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    if a.op in ('const', 'fstr') :
        return mk('mod', a, b)
    return sub(a, mul(b, floordiv(a, b)))


def absval(a):
    if is_num(a):
        return mk('num', abs(a.a[0]))
    if _increasing_diff(a):
        return a
    p = to_poly(a)
    if lead(p) < 0:
        a = neg(a)
    return mk('abs', a)


def _increasing_diff(a):
    """consecutive differences of an array in increasing order are non-negative"""
    if a.op != 'poly' or len(a.a[0]) != 2:
        return False
    (m1, c1), (m2, c2) = a.a[0]
    if len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return False
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    u, v = m1[0][0], m2[0][0]
    if c1 != 1 or c2 != -1 or u.op != 'slice' or v.op != 'slice' or u.a[0] is not v.a[0]:
        return False
    x = u.a[0]
    if u.a[1] is not ONE or u.a[2] is not NONE or v.a[1] is not ZERO or v.a[2] is not sub(length(x), ONE):
        return False
    if x.op == 'item' and x.a[1].op == 'call' and x.a[1].a[0] == 'np.argsort' and x.a[1].a[1] == (x.a[0],) and not x.a[1].a[2]:
        return True
    return x.op == 'sorted' and x.a[1] is NONE and x.a[2] is FALSE


def mkminmax(op, args):
    flat = []
    for x in args:
        if x.op == op:
            flat.extend(x.a[0])
        else:
            flat.append(x)
    nums = [x.a[0] for x in flat if is_num(x)]
    rest = {x for x in flat if not is_num(x)}
    if nums:
        rest.add(mk('num', min(nums) if op == 'min' else max(nums)))
    rest = sorted(rest, key=lambda x: x.dg)
    # drop dominated terms (constant differences)
    keep = []
    for x in rest:
        dominated = False
        for y in rest:
            if x is y:
                continue
            d = sub(x, y)
            if is_num(d):
                if op == 'min' and d.a[0] > 0 or op == 'max' and d.a[0] < 0:
                    dominated = True
        if not dominated:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk(op, tuple(keep))


def tmin(*args):
    return mkminmax('min', args)


def tmax(*args):
    return mkminmax('max', args)


# ---------------------------------------------------------------- booleans
BOOL_OPS = ('pos', 'nn', 'eq', 'ne', 'and', 'or', 'not', 'isnone', 'truth', 'in', 'any', 'raises', 'isinst', 'is')


def is_bool(t):
    return t.op in BOOL_OPS or t is TRUE or t is FALSE or (t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2]))


def _norm_sign_poly(p):
    """scale a non-constant polynomial by a positive number, canonically"""
    c = abs(lead(p))
    return {m: x / c for m, x in p.items()}


_NOTNUM = ('const', 'fstr', 'seq', 'dict', 'glob', 'fun', 'ref')


def pos(t):
    if is_num(t):
        return TRUE if t.a[0] > 0 else FALSE
    p = to_poly(t)
    if len(p) == 1 and t.op != 'poly':
        if t.op == 'len':
            return truth(t.a[0])
    x = _expand_cmp(p, pos, nn, True)
    if x is not None:
        return x
    if is_int(t):
        return _intcmp(p, strict=True)
    return mk('pos', from_poly(_norm_sign_poly(p)))


def _expand_cmp(p, pos_, nn_, strict):
    """comparisons against min/max become conjunctions/disjunctions, comparisons of an integer with floor(x) compare with x"""
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        f = m[0][0]
        if f.op in ('min', 'max'):
            rest = {k: v for k, v in p.items() if k != m}
            if len(f.a[0]) > 4:
                continue
            cmp_ = pos_ if strict else nn_
            lits = [cmp_(from_poly(_poly_add(rest, to_poly(x), c))) for x in f.a[0]]
            return land(*lits) if (f.op == 'max') == (c < 0) else lor(*lits)
    fl = [(m, c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floor' and abs(c) == 1]
    for m, c in fl:
        rest = {k: v for k, v in p.items() if k != m}
        if not is_int(from_poly(rest)):
            continue
        y = m[0][0].a[0]
        r = from_poly(_poly_add(rest, to_poly(y), c))
        if c == -1:
            # rest > floor(y)  <=>  rest > y ;  rest >= floor(y)  <=>  rest + 1 > y
            return pos_(r) if strict else pos_(add(r, ONE))
        # floor(y) + rest > 0  <=>  y + rest - 1 >= 0 ;  floor(y) + rest >= 0  <=>  y + rest >= 0
        return nn_(sub(r, ONE)) if strict else nn_(r)
    return None


def _intcmp(p, strict):
    """integer p > 0 (strict) or p >= 0, canonical: positive part compared as strict, constant reduced"""
    from math import gcd
    k = p.get((), Fraction(0))
    if not strict:
        k = k + 1  # p >= 0  <=>  p + 1 > 0
    rest = {m: c for m, c in p.items() if m != ()}
    g = 0
    for c in rest.values():
        g = gcd(g, int(c))
    # g*q + k > 0  <=>  q > -k/g  <=> q >= floor(-k/g)+1 <=> q - floor(-k/g) > 0
    fl = (-k / g).__floor__()
    q = {m: c / g for m, c in rest.items()}
    if fl:
        q[()] = Fraction(-fl)
    t = from_poly(q)
    if len(rest) == 1 and (NAT_ATOMS or NAT_PTRS):
        (m, c), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and is_nat(m[0][0]):
            k = q.get((), Fraction(0))
            if c > 0 and k > 0:
                return TRUE
            if c < 0 and k <= 0:
                return FALSE
            if c < 0 and k == 1:
                return mk('eq', m[0][0], ZERO)
    # len(x) > 0  ->  truth(x)
    if t.op == 'len':
        return truth(t.a[0])
    if len(q) == 2 and () in q and q[()] == 1:
        (m, c), = [(m, c) for m, c in q.items() if m != ()]
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len':
            return lnot(truth(m[0][0].a[0]))
    return mk('pos', t)


def nn(t):
    if is_num(t):
        return TRUE if t.a[0] >= 0 else FALSE
    p = to_poly(t)
    x = _expand_cmp(p, pos, nn, False)
    if x is not None:
        return x
    if is_int(t):
        return _intcmp(p, strict=False)
    return mk('nn', from_poly(_norm_sign_poly(p)))


def gt(a, b):
    return pos(sub(a, b))


def ge(a, b):
    return nn(sub(a, b))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return nn(sub(b, a))


def numericish(t):
    return t.op in ('num', 'poly', 'floor', 'round', 'len', 'idx', 'bv', 'min', 'max', 'abs', 'sum', 'size')


_TYPES = ('str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'bytes', 'set')


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if (a.op, a.a) == (b.op, b.a) else FALSE
    if a.op == 'seq' and b.op == 'seq' and len(a.a[0]) == len(b.a[0]) and \
            all(k == 'e' for k, _ in a.a[0]) and all(k == 'e' for k, _ in b.a[0]):
        return land(*[eq(x, y) for (_, x), (_, y) in zip(a.a[0], b.a[0])])
    if a.op == 'glob' and b.op == 'glob':
        u, v = a.a[0] in _TYPES, b.a[0] in _TYPES
        if u and v or u and b.a[0].startswith('riptide.') or v and a.a[0].startswith('riptide.'):
            return FALSE
    if b is NONE:
        return isnone(a)
    if a is NONE:
        return isnone(b)
    if is_bool(a) and b is TRUE:
        return a
    if is_bool(a) and b is FALSE:
        return lnot(a)
    if is_bool(b) and a in (TRUE, FALSE):
        return eq(b, a)
    for x, y in ((a, b), (b, a)):
        if y.op == 'num' and is_bool(x) and x not in (TRUE, FALSE):
            return lnot(x) if y.a[0] == 0 else x if y.a[0] == 1 else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (x.a[1] is y or x.a[2] is y or y.op == 'glob' and (x.a[1] is NONE or x.a[2] is NONE)):
            return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if (numericish(a) or numericish(b)) and a.op not in _NOTNUM and b.op not in _NOTNUM:
        d = sub(a, b)
        if is_num(d):
            return TRUE if d.a[0] == 0 else FALSE
        if d.op == 'poly' and any(b_ is NONE and e_ == 1 for m_ in to_poly(d) for b_, e_ in m_):
            return FALSE
        p = _norm_sign_poly(to_poly(d))
        if lead(p) < 0:
            p = {m: -c for m, c in p.items()}
        if len(p) == 2 and () not in p:
            (m1, c1), (m2, c2) = sorted(p.items(), key=_monokey)
            if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                x, y = sorted((m1[0][0], m2[0][0]), key=lambda z: z.dg)
                return mk('eq', x, y)
        if len(p) == 1:
            t = from_poly(p)
            if t.op == 'len':
                return lnot(truth(t.a[0]))
        if len(p) <= 2:
            q = dict(p)
            d = -q.pop((), Fraction(0))
            m = from_poly(q)
            if m.op in ('max', 'min') and any(is_num(z) for z in m.a[0]):
                c = [z for z in m.a[0] if is_num(z)][0].a[0]
                rest = [z for z in m.a[0] if not is_num(z)]
                s = 1 if m.op == 'max' else -1
                if s * d < s * c:
                    return FALSE
                if d == c:
                    return land(*[(le if s > 0 else ge)(z, num(c)) for z in rest])
                return eq((tmax if s > 0 else tmin)(*rest), num(d))
        return mk('eq', from_poly(p), ZERO)
    x, y = sorted((a, b), key=lambda z: z.dg)
    return mk('eq', x, y)


def ne(a, b):
    return lnot(eq(a, b))


def isnone(a):
    if a is NONE:
        return TRUE
    if is_const(a) or a.op in ('poly', 'seq', 'dict', 'collect', 'fun', 'fstr', 'lambda', 'rec', 'floor', 'glob', 'app_obj'):
        return FALSE
    if a.op == 'ite':
        return ite(a.a[0], isnone(a.a[1]), isnone(a.a[2]))
    if a.op == 'app' and a.a[0] in NEVER_NONE:
        return FALSE
    return mk('isnone', a)


NEVER_NONE = set()      # functions kept symbolic that always return an object


def truth(t):
    if is_bool(t):
        return t
    if t.op == 'const':
        return TRUE if t.a[0] else FALSE
    if t.op == 'num':
        return TRUE if t.a[0] != 0 else FALSE
    if t.op == 'len':
        return truth(t.a[0])
    if t.op == 'seq':
        if any(k == 'e' for k, _ in t.a[0]):
            return TRUE
        if not t.a[0]:
            return FALSE
    if t.op in ('poly', 'floor', 'min', 'max', 'sum', 'round') or t.op == 'call' and t.a[0] in ('int', 'float'):
        return ne(t, ZERO)
    if t.op == 'sorted':
        return truth(t.a[0])
    if t.op == 'collect':
        if t.a[3] is TRUE:
            return nonempty(t.a[1])
        i, outer, inner = open_node(t)
        return tany(outer[0], i, inner[1])
    if t.op == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op in ('fun', 'glob', 'ref', 'rec', 'lambda'):
        return TRUE
    return mk('truth', t)


def lnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'pos':
        return nn(neg(t.a[0]))
    if t.op == 'eq' and t.a[1] is ZERO and is_nat(t.a[0]):
        return mk('pos', t.a[0])
    if t.op == 'nn':
        return pos(neg(t.a[0]))
    if t.op == 'and':
        return lor(*[lnot(x) for x in t.a[0]])
    if t.op == 'or':
        return land(*[lnot(x) for x in t.a[0]])
    if t.op == 'ite':
        return ite(t.a[0], lnot(t.a[1]), lnot(t.a[2]))
    if not is_bool(t):
        return lnot(truth(t))
    return mk('not', t)


def _nary(op, args, unit, absorb):
    out = set()
    for x in args:
        x = truth(x) if not is_bool(x) else x
        if x is unit:
            continue
        if x is absorb:
            return absorb
        if x.op == op:
            out.update(x.a[0])
        else:
            out.add(x)
    for x in out:
        if lnot(x) in out:
            return absorb
    dual = 'or' if op == 'and' else 'and'
    # absorption  a and (a or b) = a ; a and (not a or b) = a and b
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == dual:
                parts = set(x.a[0])
                if any(y in out for y in parts if y is not x):
                    out.discard(x)
                    changed = True
                    break
                red = {y for y in parts if lnot(y) not in out}
                if len(red) != len(parts):
                    out.discard(x)
                    y = (lor if op == 'and' else land)(*red)
                    if y is absorb:
                        return absorb
                    if y is not unit:
                        if y.op == op:
                            out.update(y.a[0])
                        else:
                            out.add(y)
                    changed = True
                    break
    if op == 'and':
        out = _tighten(out)
        if out is None:
            return FALSE
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    return mk(op, tuple(sorted(out, key=lambda x: x.dg)))


def _tighten(lits):
    """drop inequality literals implied by stronger ones on the same polynomial (up to a constant)"""
    by = {}
    others = set()
    for x in lits:
        if x.op in ('pos', 'nn'):
            p = to_poly(x.a[0])
            k = p.pop((), Fraction(0))
            key = from_poly(p)
            by.setdefault(key, []).append((k, x.op, x))
        else:
            others.add(x)
    for key, lst in by.items():
        lst.sort(key=lambda z: (z[0], z[1] == 'nn'))   # smaller constant = stronger; strict first
        others.add(lst[0][2])
    return others


def land(*args):
    return _nary('and', args, TRUE, FALSE)


def lor(*args):
    r = _nary('or', args, FALSE, TRUE)
    return r


def ite(c, a, b):
    c = truth(c) if not is_bool(c) else c
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    a = assume(a, c)
    b = assume(b, lnot(c))
    if a is b:
        return a
    # canonical polarity
    if c.op == 'not' or c.op == 'nn' or (c.op == 'or'):
        nc = lnot(c)
        if nc.op not in ('not', 'nn', 'or') or (c.op == 'or' and nc.op == 'and' and False):
            c, a, b = nc, b, a
        elif c.op == 'or' and nc.op == 'and':
            c, a, b = nc, b, a
    if is_bool(a) and is_bool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return lnot(c)
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    if c.op in ('pos', 'nn') and not is_bool(a) and a.op not in _NOTNUM and b.op not in _NOTNUM:
        d = sub(b, a)
        if not is_num(d) and not is_seqlike(a) and not is_seqlike(b) and a.op != 'dict' and b.op != 'dict':
            if c is pos(d) or c is nn(d):
                return tmin(a, b)
            md = neg(d)
            if c is pos(md) or c is nn(md):
                return tmax(a, b)
            dd = from_poly(_norm_sign_poly(to_poly(d)))
            cc = from_poly(_norm_sign_poly(to_poly(c.a[0])))
            if dd is cc:
                return tmin(a, b)
            if neg(dd) is cc:
                return tmax(a, b)
            # integer strictness:   pos(d-1) / pos(d) select the same value at equality
            if is_int(d) and is_int(c.a[0]):
                for k in (1, -1):
                    if add(dd, num(k)) is cc:
                        return tmin(a, b)
                    if add(neg(dd), num(k)) is cc:
                        return tmax(a, b)
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == 'ite':
        if b.a[1] is a:
            return ite(lor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(lor(c, lnot(b.a[0])), a, b.a[1])
    if a.op == 'ite':
        if a.a[2] is b:
            return ite(land(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(land(c, lnot(a.a[0])), a.a[2], b)
    # order disjoint equality tests on the same subject (if/elif chains on constants)
    if c.op == 'eq' and b.op == 'ite' and b.a[0].op == 'eq':
        s1, k1 = _subject(c)
        s2, k2 = _subject(b.a[0])
        if s1 is not None and s1 is s2 and k1 is not k2 and k2.dg < k1.dg:
            return mk('ite', b.a[0], b.a[1], ite(c, a, b.a[2]))
    return mk('ite', c, a, b)


def _subject(c):
    x, y = c.a
    if is_const(x) or x.op == 'glob':
        return y, x
    if is_const(y) or y.op == 'glob':
        return x, y
    return None, None


_assume_cache = {}


def _istype(v):
    return v.op == 'glob' and v.a[0] in _TYPES


def assume(t, lit):
    """simplify t knowing lit (a boolean term) holds"""
    facts = {}
    def addfact(x):
        if x.op == 'and':
            for y in x.a[0]:
                addfact(y)
        else:
            facts[x] = TRUE
            facts[lnot(x)] = FALSE
            if x.op == 'eq':
                for u, v in (x.a, x.a[::-1]):
                    if (v.op == 'const' or _istype(v)) and not (u.op == 'const' or _istype(u)):
                        facts[mk('valueof', u)] = v
                        if u.op == 'item' and u.a[1].op not in ('num', 'idx'):
                            # the entry of a dictionary was read: its key is there
                            c = inside(u.a[1], u.a[0])
                            if c.op == 'in':
                                facts.setdefault(c, TRUE)
                                facts.setdefault(lnot(c), FALSE)
            if x.op == 'eq' and x.a[1] is ZERO and x.a[0].op in ('poly', 'floor'):
                for z in _floor_eq(x) or ():
                    facts.setdefault(z, TRUE)
                    facts.setdefault(lnot(z), FALSE)
    addfact(lit)
    none = {f.a[0]: NONE for f, v in facts.items() if f.op == 'isnone' and v is TRUE and f.a[0].op == 'param'}
    if none:
        t = subst(t, none)
    void = {length(f.a[0]): ZERO for f, v in facts.items() if f.op == 'truth' and v is FALSE and not is_bool(f.a[0])
            and f.a[0].op in ('attr', 'param', 'item')}
    if void:
        t = subst(t, {k: v for k, v in void.items() if k.op == 'len'})
    return _assume(t, facts, {})


def _floor_eq_value(x, facts, memo):
    b = [_assume(z, facts, memo) for z in _floor_eq(x)]
    if FALSE in b:
        return FALSE
    return TRUE if b == [TRUE, TRUE] else None


def _floor_eq(x):
    """floor(y) + k == 0 as a pair of bounds on y"""
    p = to_poly(x.a[0])
    k = p.pop((), Fraction(0))
    y = from_poly(p)
    if y.op != 'floor':
        return None
    return nn(add(y.a[0], num(k))), pos(sub(num(1 - k), y.a[0]))


def _mentions_any(t, ops, memo):
    r = memo.get(t)
    if r is None:
        r = t.op in ops or any(_mentions_any(c, ops, memo) for c in _walk_children(t.a))
        memo[t] = r
    return r


_has_bool_memo = {}
_CONDOPS = frozenset(('ite', 'and', 'or', 'not', 'pos', 'nn', 'eq', 'isnone', 'truth', 'in', 'min', 'max'))


def _assume(t, facts, memo):
    if t in facts:
        return facts[t]
    if not _mentions_any(t, _CONDOPS, _has_bool_memo):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'eq':
        # x is known to be one constant: it is no other
        for u, v in (t.a, t.a[::-1]):
            if v.op == 'const' or _istype(v):
                k = facts.get(mk('valueof', u))
                if k is not None and eq(k, v) is FALSE:
                    return FALSE
                if u.op == 'item' and facts.get(mk('in', u.a[1], u.a[0])) is FALSE:
                    return FALSE
    if t.op in ('pos', 'nn'):
        r = _implied(t, facts)
        if r is None:
            r = t
            x = _assume(t.a[0], facts, memo)
            if x is not t.a[0]:
                r = pos(x) if t.op == 'pos' else nn(x)
    elif t.op == 'eq' and t.a[1] is ZERO and t.a[0].op in ('poly', 'floor') and any(f.op in ('pos', 'nn') for f in facts) \
            and _floor_eq(t) is not None and _floor_eq_value(t, facts, memo) is not None:
        r = _floor_eq_value(t, facts, memo)
    elif t.op == 'eq' and t.a[1] is ZERO and any(f.op in ('pos', 'nn') and v is TRUE for f, v in facts.items()) and t.a[0].op not in _NOTNUM and \
            (_implied(mk('pos', t.a[0]), facts) is TRUE or _implied(mk('nn', t.a[0]), facts) is FALSE):
        r = FALSE
    elif t.op == 'ite':
        c = _assume(t.a[0], facts, memo)
        if c is TRUE:
            r = _assume(t.a[1], facts, memo)
        elif c is FALSE:
            r = _assume(t.a[2], facts, memo)
        else:
            a, b = _assume(t.a[1], facts, memo), _assume(t.a[2], facts, memo)
            r = t if (c is t.a[0] and a is t.a[1] and b is t.a[2]) else ite(c, a, b)
    elif t.op == 'and':
        r = land(*[_assume(x, facts, memo) for x in t.a[0]])
    elif t.op == 'or':
        r = lor(*[_assume(x, facts, memo) for x in t.a[0]])
    elif t.op == 'not':
        r = lnot(_assume(t.a[0], facts, memo))
    elif t.op in ('loop', 'raises'):
        r = t
    else:
        r = map_children(t, lambda x: _assume(x, facts, memo))
    memo[t] = r
    return r


def _implied(t, facts):
    """inequality literals implied by a fact on the same polynomial up to a constant"""
    p = to_poly(t.a[0])
    k = p.pop((), Fraction(0))
    key = from_poly(p)
    nkey = neg(key)
    for f, v in facts.items():
        if v is TRUE and f.op == 'eq' and f.a[1] is ZERO and f.a[0].op not in _NOTNUM:
            q = to_poly(f.a[0])
            kf = q.pop((), Fraction(0))
            fk = from_poly(q)
            if fk is key or fk is nkey:
                d = k - kf if fk is key else k + kf
                return TRUE if d > 0 or d == 0 and t.op == 'nn' else FALSE
        if v is not TRUE or f.op not in ('pos', 'nn'):
            continue
        q = to_poly(f.a[0])
        kf = q.pop((), Fraction(0))
        fk = from_poly(q)
        if fk is key:
            # fact: key + kf >(=) 0 ; want key + k >(=) 0
            if k > kf or (k == kf and (f.op == 'pos' or t.op == 'nn')):
                return TRUE
        elif fk is nkey:
            # fact: -key + kf >(=) 0 -> key <(=) kf ; t: key > -k false if kf <= -k
            if kf < -k or (kf == -k and (f.op == 'pos' or t.op == 'pos')):
                return FALSE
    if is_int(key):
        lo, hi = _bounds(key, nkey, facts)
        if lo is not None and (lo + k > 0 or lo + k == 0 and t.op == 'nn'):
            return TRUE
        if hi is not None and (hi + k < 0 or hi + k == 0 and t.op == 'pos'):
            return FALSE
    return None


def _bounds(key, nkey, facts):
    """smallest and largest value left to an integer by the inequalities and exclusions known"""
    lo = hi = None
    out = set()
    for f, v in facts.items():
        if f.op == 'eq' and v is FALSE and f.a[1] is ZERO and f.a[0].op not in _NOTNUM:
            q = to_poly(f.a[0])
            kf = q.pop((), Fraction(0))
            fk = from_poly(q)
            if fk is key:
                out.add(-kf)
            elif fk is nkey:
                out.add(kf)
        elif v is TRUE and f.op in ('pos', 'nn'):
            q = to_poly(f.a[0])
            kf = q.pop((), Fraction(0))
            fk = from_poly(q)
            if fk is key:
                b = -kf if f.op == 'nn' else -kf + 1 if kf.denominator == 1 else -kf
                b = -((-b.numerator) // b.denominator)
                lo = b if lo is None else max(lo, b)
            elif fk is nkey:
                b = kf if f.op == 'nn' else kf - 1 if kf.denominator == 1 else kf
                b = b.numerator // b.denominator
                hi = b if hi is None else min(hi, b)
    while lo is not None and lo in out:
        lo += 1
    while hi is not None and hi in out:
        hi -= 1
    return lo, hi


# ---------------------------------------------------------------- sequences
def seq(elems):
    return mk('seq', tuple(('e', x) for x in elems))


EMPTY = seq([])


def _parts(t):
    if t.op == 'seq':
        return list(t.a[0])
    return [('s', t)]


def concat(a, b):
    if (a.op == 'const' and isinstance(a.a[0], str)) or a.op == 'fstr' or \
            (b.op == 'const' and isinstance(b.a[0], str)) or b.op == 'fstr':
        return fstr(_fparts(a) + _fparts(b))
    parts = _parts(a) + _parts(b)
    if len(parts) == 1 and parts[0][0] == 's':
        return parts[0][1]
    return mk('seq', tuple(parts))


def seq_append(a, x):
    return mk('seq', tuple(_parts(a) + [('e', x)])) if not (a.op == 'seq' and not a.a[0]) else seq([x])


def seq_elems(t):
    """list of element terms if the sequence is a plain display, else None"""
    if t.op == 'seq' and all(k == 'e' for k, _ in t.a[0]):
        return [x for _, x in t.a[0]]
    return None


# ---------------------------------------------------------------- strings
def _fparts(t):
    if t.op == 'fstr':
        return list(t.a[0])
    if t.op == 'const' and isinstance(t.a[0], str):
        return [t.a[0]] if t.a[0] else []
    return [(t, '', '')]


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            v, conv, spec = p
            if v.op == 'const' and isinstance(v.a[0], str) and not conv and spec in ('', 's'):
                if out and isinstance(out[-1], str):
                    out[-1] += v.a[0]
                else:
                    out.append(v.a[0])
            elif v.op == 'fstr' and not conv and not spec:
                for q in v.a[0]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            else:
                out.append((v, conv, spec))
    if not out:
        return const('')
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    if len(out) > 1 and not isinstance(out[0], str) and out[0][1:] == ('', ''):
        v = out[0][0]
        if v.op == 'call' and v.a[0] == 'os.path.join' and len(v.a[1]) > 1 and not v.a[2]:
            # join(d, x) + s = join(d, x + s)
            return mk('call', v.a[0], v.a[1][:-1] + (fstr(_fparts(v.a[1][-1]) + out[1:]),), v.a[2])
    return mk('fstr', tuple(out))


# ---------------------------------------------------------------- indexing / length
_ARRAY_CALLS = ('np.flatnonzero', 'np.argsort', 'np.hstack', 'riptide.libcpp.running_median', 'np.interp', 'np.reshape',
                'riptide.libcpp.downsample', 'np.cumsum')


def _is_array(f):
    """terms that certainly denote an array"""
    if f.op in ('slice', 'seq', 'collect', 'range'):
        return True
    if f.op == 'cast':
        return True
    if f.op == 'call':
        return f.a[0] in _ARRAY_CALLS
    if f.op == 'ite':
        return _is_array(f.a[1]) and _is_array(f.a[2])
    return False


def length(t):
    if t.op == 'seq':
        n = ZERO
        for k, x in t.a[0]:
            n = add(n, ONE if k == 'e' else length(x))
        return n
    if t.op == 'collect':
        lvl, n, body, cond = t.a
        if cond is TRUE:
            return n
        return mk('len', t)
    if t.op == 'dict':
        if all(k.op in ('const', 'num') for k, v in t.a[0]):
            return num(len(t.a[0]))
    if t.op == 'const' and isinstance(t.a[0], (str, bytes)):
        return num(len(t.a[0]))
    if t.op == 'slice':
        x, lo, hi, st = t.a
        if st is ONE:
            if hi is NONE:
                return sub(length(x), lo)
            return sub(hi, lo)
    if t.op == 'sorted':
        return length(t.a[0])
    if t.op == 'range':
        return t.a[1]
    if t.op == 'zip':
        return tmin(*[length(x) for x in t.a[0]])
    if t.op == 'enum':
        return length(t.a[0])
    if t.op in ('reversed', 'arr', 'cast', 'copy', 'maybeview'):
        return length(t.a[0])
    if t.op == 'ditems':
        return length(mk('keys', t.a[0]))
    if t.op == 'keys':
        return mk('len', t.a[0])
    if t.op == 'call' and t.a[0] in ('np.argsort', 'log', 'exp', 'sin', 'cos') and t.a[1]:
        return length(t.a[1][0])
    if t.op == 'poly':
        fs = [f for m, c in t.a[0] for f, e in m]
        for kinds in (('cast',), ('slice', 'seq', 'collect', 'range'), ('call', 'ite', 'item')):
            for f in fs:
                if f.op in kinds and _is_array(f):
                    return length(f)
    if t.op == 'call' and t.a[1] and t.a[0] in ('riptide.libcpp.running_median', 'np.interp', 'np.abs', 'np.sqrt', 'np.cumsum'):
        return length(t.a[1][0])
    if t.op == 'item' and t.a[1].op == 'call' and t.a[1].a[0] == 'np.argsort' and t.a[1].a[1] == (t.a[0],):
        return length(t.a[0])
    if t.op == 'app' and t.a[0] in SAME_LENGTH:
        for k, v in t.a[1]:
            if k == SAME_LENGTH[t.a[0]]:
                return length(v)
    return mk('len', t)


# functions of the repository kept opaque that give one output per element of this parameter
SAME_LENGTH = {'riptide.running_medians.running_median': 'x'}


MINUS1 = num(-1)


def item(x, k):
    """x[k] (also the k-th element of an iterated sequence)"""
    if x.op == 'seq':
        if is_num(k):
            es = x.a[0]
            i = int(k.a[0])
            if i >= 0:
                for j, (kind, e) in enumerate(es):
                    if kind != 'e':
                        break
                    if j == i:
                        return e
            else:
                for j, (kind, e) in enumerate(reversed(es)):
                    if kind != 'e':
                        break
                    if j == -i - 1:
                        return e
    if x.op == 'mcall' and (x.a[0] == 'rpartition' and k.op == 'num' and k.a[0] in (2, -1) or x.a[0] == 'partition' and k is ZERO) and len(x.a[1]) == 2 and not x.a[2]:
        # the part after the last separator, or before the first one, is what splitting once there gives
        return item(mk('mcall', 'rsplit' if x.a[0] == 'rpartition' else 'split', x.a[1][:1], (('maxsplit', ONE), ('sep', x.a[1][1]))), ZERO if k is ZERO else MINUS1)
    if x.op == 'collect' and x.a[3] is TRUE:
        return open_binder(x, 2, k)
    if x.op == 'collect' and (k is ZERO or k is MINUS1):
        i, outer, inner = open_node(x)
        hit = mk('firsthit' if k is ZERO else 'lasthit', outer[0], bind('lambda', i, (num(1),), (inner[1],)))
        INT_ATOMS.add(hit)
        return subst(inner[0], {i: hit})
    if x.op == 'dict':
        for kk, v in reversed(x.a[0]):
            if kk is k:
                return v
            if kk.op == 'splice':
                if is_const(k):
                    r = item(v, k)
                    return r
                break
            if not (is_const(kk) and is_const(k)):
                break
        if len(x.a[0]) <= 8 and not is_const(k) and k.op not in ('glob', 'call') and all(kk.op == 'glob' for kk, _ in x.a[0]):
            r = mk('item', x, k)
            for kk, v in x.a[0]:
                r = ite(eq(k, kk), v, r)
            return r
    if x.op == 'range' and not (is_num(k) and k.a[0] < 0):
        return add(x.a[0], mul(k, x.a[2]))
    if x.op == 'arr':
        return item(x.a[0], k)
    if x.op == 'attr' and x.a[1] == 'shape':
        if k is ZERO:
            return length(x.a[0])
        return mk('item', x, k)
    if x.op == 'ditems':
        kk = item(mk('keys', x.a[0]), k)
        return seq([kk, item(x.a[0], kk)])
    if x.op == 'zip':
        return seq([item(y, k) for y in x.a[0]])
    if x.op == 'enum':
        return seq([add(k, x.a[1]), item(x.a[0], k)])
    if x.op == 'reversed':
        return item(x.a[0], sub(sub(length(x.a[0]), ONE), k))
    if x.op == 'slice':
        y, lo, hi, st = x.a
        if st is ONE and not (is_num(k) and k.a[0] < 0) and (numericish(k) or k.op in ('param', 'lv')) and not is_bool(k):
            return item(y, add(lo, k))
    if x.op == 'ite' and (x.a[1].op in ('seq', 'dict', 'rec', 'collect', 'ite') or x.a[2].op in ('seq', 'dict', 'rec', 'collect', 'ite')):
        return ite(x.a[0], item(x.a[1], k), item(x.a[2], k))
    if x.op == 'rec' and is_num(k):
        return x.a[1][int(k.a[0])][1]
    if is_num(k) and k.a[0] < 0 and x.op != 'dict':
        n = length(x)
        if not is_num(n):
            return item(x, add(n, k))
        if n.a[0] + k.a[0] >= 0:
            return item(x, add(n, k))
    if k.op == 'poly' and x.op != 'dict':
        pass
    if k.op == 'call' and k.a[0] == 'np.flatnonzero':
        return mk('item', x, k.a[1][0])
    if k.op == 'range' and k.a[0] is ZERO and k.a[2] is ONE and k.a[1] is length(x) and x.op not in ('dict', 'dictof'):
        return x
    if x.op == 'sorted' and is_num(k) and k.a[0] == 0:
        s, key, rev = x.a
        return mk('maxby' if rev is TRUE else 'minby', s, key)
    if x.op == 'sorted' and k.op == 'firsthit' and k.a[0] is length(x):
        # the first of a sorted sequence satisfying a condition = the least of those satisfying it
        i, outer, inner = open_node(k.a[1])
        s, key, rev = x.a
        c = subst(inner[0], {item(x, i): item(s, i)})
        if not contains(c, x):
            return mk('maxby' if rev is TRUE else 'minby', collect(length(s), i, item(s, i), c), key)
    if k.op == 'seq' and x.op not in ('dict', 'seq'):
        return mk('item', x, k)
    return mk('item', x, k)


def slice_(x, lo, hi, st):
    if st is NONE:
        st = ONE
    if st is ONE and lo is NONE:
        lo = ZERO
    if st is ONE:
        if is_num(lo) and lo.a[0] < 0:
            lo = add(length(x), lo)
        if is_num(hi) and hi.a[0] < 0:
            hi = add(length(x), hi)
        if hi.op != 'const' and hi is length(x):
            hi = NONE
        if lo is ZERO and hi is NONE and x.op != 'ptr':
            return mk('copyof', x) if False else x
    elems = seq_elems(x)
    if elems is not None and (is_num(lo) or lo is NONE) and (is_num(hi) or hi is NONE) and is_num(st):
        f = lambda v: None if v is NONE else int(v.a[0])
        return seq(elems[f(lo):f(hi):f(st)])
    if is_num(st) and st.a[0] == -1 and lo is NONE and hi is NONE:
        return mk('reversed', x)
    if x.op == 'slice' and st is ONE and x.a[3] is ONE:
        y, l0, h0, _ = x.a
        nlo = add(l0, lo)
        nhi = h0 if hi is NONE else (add(l0, hi) if h0 is NONE else tmin(h0, add(l0, hi)))
        return slice_(y, nlo, nhi, ONE)
    return mk('slice', x, lo, hi, st)


def attr(x, name):
    if x.op == 'rec':
        for k, v in x.a[1]:
            if k == name:
                return v
    if x.op == 'ite':
        if x.a[1].op in ('rec',) or x.a[2].op in ('rec',):
            return ite(x.a[0], attr(x.a[1], name), attr(x.a[2], name))
    if name == 'size':
        return length(x)
    return mk('attr', x, name)


# ---------------------------------------------------------------- dicts
def dict_(entries):
    d = mk('dict', ())
    for k, v in entries:
        d = dict_set(d, k, v)
    return d


def dict_set(d, k, v):
    if d.op == 'dict':
        if k.op == 'splice':
            return dict_update(d, v)
        ents = list(d.a[0])
        if is_const(k):
            ents = [(kk, vv) for kk, vv in ents if kk is not k]
            # constant keys following the last non constant key are order independent
            cut = 0
            for i, (kk, vv) in enumerate(ents):
                if not is_const(kk):
                    cut = i + 1
            head, tail = ents[:cut], ents[cut:]
            tail.append((k, v))
            tail.sort(key=lambda kv: kv[0].dg)
            return mk('dict', tuple(head + tail))
        if ents and ents[-1][0] is k:
            ents.pop()
        return mk('dict', tuple(ents + [(k, v)]))
    return mk('dict', ((mk('splice'), d), (k, v)))


def dict_update(d, e):
    if e.op == 'dict':
        ents = e.a[0]
        if ents and ents[0][0].op == 'splice' and d.op == 'dict' and not d.a[0]:
            return e
        for k, v in ents:
            if k.op == 'splice':
                d = mk('dict', (d.a[0] if d.op == 'dict' else ((mk('splice'), d),)) + ((mk('splice'), v),))
            else:
                d = dict_set(d, k, v)
        return d
    if d.op == 'dict' and not d.a[0]:
        return mk('dict', ((mk('splice'), e),))
    return mk('dict', (d.a[0] if d.op == 'dict' else ((mk('splice'), d),)) + ((mk('splice'), e),))


def inside(k, c):
    """membership test"""
    if c.op == 'set':
        return lor(*[eq(k, x) for x in c.a[0]])
    if c.op == 'ite':
        return ite(c.a[0], inside(k, c.a[1]), inside(k, c.a[2]))
    if c.op == 'seq' and seq_elems(c) is not None:
        return lor(*[eq(k, x) for x in seq_elems(c)])
    if c.op == 'keys':
        return inside(k, c.a[0])
    if c.op == 'dict':
        if all(is_const(kk) or kk.op == 'glob' for kk, _ in c.a[0]):
            return lor(*[eq(k, kk) for kk, _ in c.a[0]])
        if is_const(k):
            if any(kk is k for kk, _ in c.a[0]):
                return TRUE
            if c.a[0][0][0].op == 'splice' and all(is_const(kk) for kk, _ in c.a[0][1:]):
                return inside(k, c.a[0][0][1])
    if c.op == 'rec' and dict(c.a[1]).get('$c') is not None:
        return inside(k, dict(c.a[1])['$c'])
    return mk('in', k, c)


def pick(c, f):
    """the types f is one of, when condition c says that it is one of several"""
    alts = list(c.a[0]) if c.op == 'or' else [c]
    out = []
    for e in alts:
        if e.op != 'eq' or f not in e.a:
            return None
        o = e.a[1] if e.a[0] is f else e.a[0]
        if o.op != 'glob' or o.a[0] not in _TYPES:
            return None
        out.append(o)
    return out


# ---------------------------------------------------------------- pointers (C++)
def padd(p, k):
    if p.op == 'padd':
        return padd(p.a[0], add(p.a[1], k))
    if k is ZERO:
        return p
    if p.op == 'ite':
        return ite(p.a[0], padd(p.a[1], k), padd(p.a[2], k))
    return mk('padd', p, k)


def ptr_split(p):
    if p.op == 'padd':
        return p.a[0], p.a[1]
    return p, ZERO


# ---------------------------------------------------------------- binders
_uid = itertools.count(1)


def fresh_idx():
    return mk('idx', next(_uid))


def bind(op, idx, outer, inner):
    """build a binder node: outer args are outside the scope, inner ones inside (idx -> bv)"""
    lvl = 1 + max([x.lvl for x in inner] + [0])
    b = mk('bv', lvl)
    return mk(op, lvl, *outer, *[_bind_idx(x, idx, b) for x in inner])


def _bind_idx(x, idx, b):
    """idx -> b; inner binders keep their numbers (all smaller than that of b)"""
    key = t_key(idx.op, idx.a)
    memo = {}

    def go(y):
        if y is idx:
            return b
        if key not in y.free:
            return y
        r = memo.get(y)
        if r is None:
            r = memo[y] = map_children(y, go, raw_binders=True)
        return r
    return go(x)


def n_outer(op):
    return {'collect': 1, 'sum': 1, 'any': 1, 'first': 1, 'lambda': 1, 'redmax': 1, 'redmin': 1, 'last': 1, 'dictc': 1, 'groupby': 1}[op]


def open_node(t):
    """(fresh idx, outer args, inner args) of a binder node"""
    i = fresh_idx()
    k = 1 + n_outer(t.op)
    return i, t.a[1:k], tuple(_replace_bv(x, t.a[0], i) for x in t.a[k:])


def larg(x):
    """bound variable of a function value: unlike a loop index it need not be an integer"""
    return mk('larg', x) if x.op in ('idx', 'bv') else x


def open_binder(t, pos_, value):
    """inner argument number pos_ (index in t.a) with the bound variable replaced by value"""
    i, outer, inner = open_node(t)
    body = inner[pos_ - 1 - n_outer(t.op)]
    if t.op == 'lambda':
        return subst(body, {i: value, mk('larg', i): value})
    return subst(body, {i: value})


def _replace_bv(t, lvl, value):
    b = mk('bv', lvl)
    memo = {}

    def go(x):
        if x is b:
            return value
        if x.lvl < lvl:
            return x
        r = memo.get(x)
        if r is None:
            if x.op in BINDERS and x.a[0] <= lvl and False:
                r = x
            else:
                r = map_children(x, go, raw_binders=True)
            memo[x] = r
        return r
    return go(t)


def _collect(n, idx, body, cond=TRUE):
    if cond is FALSE or n is ZERO:
        return EMPTY
    if cond is TRUE:
        # identity:  [x[i] for i < len(x)]  = x
        if body.op == 'item' and body.a[1] is idx and not _contains(body.a[0], idx) and n is length(body.a[0]):
            return body.a[0]
    return bind('collect', idx, (n,), (body, cond))


def collect(n, idx, body, cond=TRUE):
    """collect with fusion of a filtered source"""
    if n.op == 'len' and n.a[0].op == 'collect' and n.a[0].a[3] is not TRUE:
        src = n.a[0]
        tok = fresh_idx()
        b2 = _abstract(body, src, idx, tok)
        c2 = _abstract(cond, src, idx, tok)
        if b2 is not None and c2 is not None:
            j, outer, inner = open_node(src)
            m = {tok: inner[0]}
            return collect(outer[0], j, subst(b2, m), land(inner[1], subst(c2, m)))
    if cond is not TRUE and body.op == 'item' and body.a[1] is idx and body.a[0].op == 'sorted' and n is length(body.a[0]):
        # filtering a sorted sequence = sorting the filtered one (the sort is stable)
        S = body.a[0]
        c2 = subst(cond, {body: item(S.a[0], idx)})
        if not contains(c2, S):
            return sorted_(collect(n, idx, item(S.a[0], idx), c2), S.a[1], S.a[2])
    return _collect(n, idx, body, cond)


def _abstract(x, src, idx, tok):
    """replace item(src, idx) by tok; None when idx or src occur otherwise"""
    el = item(src, idx)
    y = subst(x, {el: tok})
    if contains(y, idx):
        return None
    return y


def _sorted_source(n, i, inner):
    """the sorted sequence whose elements a comprehension visits, when it uses its index in no other way"""
    for y in (z for b in inner for z in subterms(b)):
        if y.op == 'item' and y.a[1] is i and y.a[0].op == 'sorted' and n is length(y.a[0]):
            tok = fresh_idx()
            if not any(contains(subst(b, {y: tok}), i) for b in inner):
                return y.a[0]
    return None


def unperm(x):
    """a sequence about to be sorted: forget the order of its parts"""
    if x.op == 'perm':
        return unperm(x.a[0])
    if x.op == 'sorted':
        return unperm(x.a[0])
    if x.op == 'collect':
        i, outer, inner = open_node(x)
        S = _sorted_source(outer[0], i, inner)
        if S is not None:
            m = {item(S, i): item(S.a[0], i)}
            return collect(outer[0], i, subst(inner[0], m), subst(inner[1], m))
    if x.op == 'seq' and any(k == 's' and p.op == 'perm' for k, p in x.a[0]):
        out = EMPTY
        for k, p in x.a[0]:
            out = concat(out, unperm(p)) if k == 's' else seq_append(out, p)
        return out
    return x


def sorted_(S, k, r):
    """S sorted by k (r: descending); the sort is stable"""
    if S.op == 'ite':
        return ite(S.a[0], sorted_(S.a[1], k, r), sorted_(S.a[2], k, r))
    y = S
    while y.op == 'slice' and y.a[3] is ONE:
        y = y.a[0]
    if y.op == 'sorted' and y.a[1] is k and y.a[2] is r:
        return S
    es = seq_elems(S)
    if es is not None and len(es) < 2:
        return S
    return mk('sorted', unperm(S), k, r)


def tsum(n, idx, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if not _contains(body, idx):
        return mul(n, body)
    # linear parts not depending on idx are pulled out
    p = to_poly(body)
    dep = {m: c for m, c in p.items() if any(_contains(f, idx) for f, e in m)}
    ind = {m: c for m, c in p.items() if m not in dep}
    out = ZERO
    if ind:
        out = mul(n, from_poly(ind))
    for m, c in dep.items():
        fd = tuple((f, e) for f, e in m if _contains(f, idx))
        fi = tuple((f, e) for f, e in m if not _contains(f, idx))
        core = from_poly({fd: Fraction(1)})
        k = from_poly({fi: c})
        out = add(out, mul(k, bind('sum', idx, (n,), (core,))))
    return out


def nonempty(n):
    return truth(n.a[0]) if n.op == 'len' else pos(n)


def tany(n, idx, cond):
    if cond is FALSE or n is ZERO:
        return FALSE
    if not _contains(cond, idx):
        return land(nonempty(n), cond)
    if cond.op == 'and':
        inv = [c for c in cond.a[0] if not _contains(c, idx)]
        if inv:
            return land(*inv, tany(n, idx, land(*[c for c in cond.a[0] if _contains(c, idx)])))
    if n.op == 'len':
        S = _sorted_source(n, idx, (cond,))
        if S is not None:
            cond = subst(cond, {item(S, idx): item(S.a[0], idx)})
            n = length(S.a[0])
    return bind('any', idx, (n,), (cond,))


def _contains(t, x):
    if x.op in ('idx', 'phi', 'lv'):
        return t_key(x.op, x.a) in t.free
    seen = set()

    def go(y):
        if y is x:
            return True
        if y in seen:
            return False
        seen.add(y)
        return any(go(c) for c in _walk_children(y.a))
    return go(t)


contains = _contains


# ---------------------------------------------------------------- rebuilding
def map_children(t, f, raw_binders=False):
    if not any(True for _ in _walk_children(t.a)):
        return t
    op = t.op
    if op in BINDERS and not raw_binders:
        if op == 'loop':
            return _map_loop(t, f)
        i, outer, inner = open_node(t)
        no = tuple(_map(x, f) for x in outer)
        ni = tuple(f(x) for x in inner)
        if no == tuple(outer) and ni == tuple(inner):
            return t
        return rebuild_binder(op, i, no, ni)
    na = tuple(_map(x, f) for x in t.a)
    if all(x is y or x == y for x, y in zip(na, t.a)):
        return t
    if raw_binders and op in BINDERS:
        return mk(op, *na)
    return rebuild(op, na)


def _map_loop(t, f):
    na = tuple(_map(x, f) for x in t.a)
    if na == t.a:
        return t
    return mk('loop', *na)


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def rebuild_binder(op, i, outer, inner):
    if op == 'collect':
        return collect(outer[0], i, inner[0], inner[1])
    if op == 'sum':
        return tsum(outer[0], i, inner[0])
    if op == 'any':
        return tany(outer[0], i, inner[0])
    return bind(op, i, outer, inner)


def rebuild(op, a):
    if op == 'poly':
        out = ZERO
        for m, c in a[0]:
            t = mk('num', c)
            for fct, e in m:
                t = mul(t, power(fct, mk('num', e)))
            out = add(out, t)
        return out
    f = _REBUILD.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


_REBUILD = {
    'sorted': sorted_,
    'larg': larg,
    'pow': power,
    'floor': floor,
    'round': round_,
    'abs': absval,
    'min': lambda xs: tmin(*xs),
    'max': lambda xs: tmax(*xs),
    'pos': pos, 'nn': nn,
    'eq': eq,
    'and': lambda xs: land(*xs),
    'or': lambda xs: lor(*xs),
    'not': lnot,
    'isnone': isnone, 'truth': truth,
    'ite': ite,
    'seq': lambda parts: _rebuild_seq(parts),
    'fstr': lambda parts: fstr(list(parts)),
    'len': length,
    'item': item,
    'slice': slice_,
    'attr': attr,
    'padd': padd,
    'dict': lambda ents: _rebuild_dict(ents),
    'in': inside,
    'call': lambda f, args, *kw: mk('call', f, tuple(sorted(args, key=lambda x: x.dg)) if f in COMMUTE else args, *kw),
}
COMMUTE = ('fp+', 'fp*')


def _rebuild_seq(parts):
    out = EMPTY
    for k, x in parts:
        out = seq_append(out, x) if k == 'e' else concat(out, x)
    return out


def _rebuild_dict(ents):
    d = mk('dict', ())
    for k, v in ents:
        if k.op == 'splice':
            d = dict_update(d, v)
        else:
            d = dict_set(d, k, v)
    return d


def relevel(t):
    """the same term with every bound variable numbered by the depth of its own scope only"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS and x.op != 'loop':
            i, outer, inner = open_node(x)
            r = rebuild_binder(x.op, i, tuple(_map(y, go) for y in outer), tuple(go(y) for y in inner))
        else:
            r = map_children(x, go)
        memo[x] = r
        return r
    return go(_relv(t))


def _open_lv(x, memo):
    """numbers of the state variables of loops that occur in x outside the loops that own them"""
    r = memo.get(x)
    if r is None:
        if x.op == 'lv':
            r = frozenset([x.a[0]])
        else:
            r = frozenset().union(*[_open_lv(c, memo) for c in _walk_children(x.a)])
            if x.op == 'gloop' and r and x.a[1].a[2].op == 'looparg':
                r -= {min(r)}
        memo[x] = r
    return r


def _relv(t):
    """state variables of summarised loops numbered by the depth of their own loop only"""
    if not has_op(t, 'gloop'):
        return t
    memo, om = {}, {}

    def rename(x, d, new, mm):
        if x.op == 'lv':
            return mk('lv', new, *x.a[1:]) if x.a[0] == d else x
        r = mm.get(x)
        if r is None:
            r = mm[x] = map_children(x, lambda y: rename(y, d, new, mm), raw_binders=True)
        return r

    def go(x):
        r = memo.get(x)
        if r is None:
            r = map_children(x, go, raw_binders=True)
            if r.op == 'gloop' and r.a[1].a[2].op == 'looparg':
                free = _open_lv(r.a[1], om)
                if free:
                    d = min(free)
                    new = 1 + max([y.a[0] for y in subterms(r.a[1]) if y.op == 'lv' and y.a[0] < d] or [0])
                    if new != d:
                        r = mk('gloop', r.a[0], rename(r.a[1], d, new, {}), r.a[2])
                if x in INT_ATOMS:
                    INT_ATOMS.add(r)
            memo[x] = r
        return r
    return go(t)


def subst(t, m):
    """substitute free variables (idx/phi/lv/param terms)"""
    if not m:
        return t
    keys = {t_key(k.op, k.a) for k in m if k.op in ('idx', 'phi', 'lv')}
    allfree = len(keys) == len(m)
    memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if allfree and not (x.free & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = map_children(x, go)
            memo[x] = r
        return r
    return go(t)


replace_leaf = subst


def replace(t, fn):
    """bottom-up rewriting: fn(term) -> term or None"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = map_children(x, go)
            z = fn(y)
            r = y if z is None else z
            memo[x] = r
        return r
    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(_walk_children(x.a))


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


# ---------------------------------------------------------------- equality beyond identity
def _rat(t, memo):
    """rational form: (num, den) polynomials over atoms (dict mono->coeff with non-negative integer exponents)"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'num':
        r = ({(): t.a[0]} if t.a[0] else {}, {(): Fraction(1)})
    elif t.op == 'poly':
        n, d = {}, {(): Fraction(1)}
        for m, c in t.a[0]:
            mn, md = {(): c}, {(): Fraction(1)}
            for f, e in m:
                k = e.numerator // e.denominator
                fr = e - k
                if f.op == 'poly':
                    fn, fd = _rat(f, memo)
                else:
                    fn, fd = {((f, Fraction(1)),): Fraction(1)}, {(): Fraction(1)}
                if k < 0:
                    fn, fd = fd, fn
                for _ in range(abs(k)):
                    mn = _pm(mn, fn)
                    md = _pm(md, fd)
                if fr:
                    at = mk('root', f, fr)
                    mn = _pm(mn, {((at, Fraction(1)),): Fraction(1)})
            # n/d + mn/md
            if md == d:
                n = _poly_add(n, mn)
            else:
                n = _poly_add(_pm(n, md), _pm(mn, d))
                d = _pm(d, md)
        r = (n, d)
    else:
        r = ({((t, Fraction(1)),): Fraction(1)}, {(): Fraction(1)})
    memo[t] = r
    return r


def _pm(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for f, e in m2:
                d[f] = d.get(f, 0) + e
            m = tuple(sorted(d.items(), key=lambda fe: fe[0].dg))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def num_equal(a, b):
    if a is b:
        return True
    memo = {}
    try:
        n1, d1 = _rat(a, memo)
        n2, d2 = _rat(b, memo)
        if max(len(n1), len(d1), len(n2), len(d2)) > 400:
            return False
        diff = _poly_add(_pm(n1, d2), _pm(n2, d1), -1)
        diff = _reduce_roots(diff)
        return not diff
    except RecursionError:
        return False


def _reduce_roots(p):
    """root(f, 1/2)^2 -> f"""
    for _ in range(20):
        hit = False
        out = {}
        for m, c in p.items():
            for i, (f, e) in enumerate(m):
                if f.op == 'root' and f.a[1] == Fraction(1, 2) and e >= 2:
                    hit = True
                    rest = dict(m)
                    rest[f] = e - 2
                    if not rest[f]:
                        del rest[f]
                    n, d = _rat(f.a[0], {})
                    if d != {(): Fraction(1)}:
                        # keep exactness: multiply everything through by the denominator of f
                        return _reduce_roots(_clear(p, f))
                    q = _pm({tuple(sorted(rest.items(), key=lambda fe: fe[0].dg)): c}, n)
                    for mm, cc in q.items():
                        out[mm] = out.get(mm, 0) + cc
                    break
            else:
                out[m] = out.get(m, 0) + c
        p = {m: c for m, c in out.items() if c}
        if not hit:
            return p
    return p


def _clear(p, f):
    n, d = _rat(f.a[0], {})
    out = {}
    maxk = max(int(dict(m).get(f, 0)) // 2 for m in p)
    for m, c in p.items():
        k = int(dict(m).get(f, 0)) // 2
        rest = dict(m)
        if f in rest:
            rest[f] -= 2 * k
            if not rest[f]:
                del rest[f]
        q = {tuple(sorted(rest.items(), key=lambda fe: fe[0].dg)): c}
        for _ in range(k):
            q = _pm(q, n)
        for _ in range(maxk - k):
            q = _pm(q, d)
        for mm, cc in q.items():
            out[mm] = out.get(mm, 0) + cc
    return {m: c for m, c in out.items() if c}


def _bool_atoms(t, acc):
    if t.op in ('and', 'or'):
        for x in t.a[0]:
            _bool_atoms(x, acc)
    elif t.op == 'not':
        _bool_atoms(t.a[0], acc)
    elif t.op == 'ite' and is_bool(t):
        for x in t.a:
            _bool_atoms(x, acc)
    elif t in (TRUE, FALSE):
        pass
    else:
        n = lnot(t)
        if n.dg < t.dg and n.op not in ('and', 'or'):
            acc.add(n)
        else:
            acc.add(t)


def bool_equal(a, b, given=TRUE, limit=12):
    """propositional equivalence of two conditions (with complementary inequality literals identified)"""
    if a is b:
        return True
    acc = set()
    _bool_atoms(a, acc)
    _bool_atoms(b, acc)
    _bool_atoms(given, acc)
    if len(acc) > limit:
        return False

    def shannon(x, y, g, atoms):
        if g is FALSE:
            return True
        if x is y:
            return True
        if not atoms:
            return x is y
        at = atoms[0]
        return shannon(assume(x, at), assume(y, at), assume(g, at), atoms[1:]) and \
            shannon(assume(x, lnot(at)), assume(y, lnot(at)), assume(g, lnot(at)), atoms[1:])
    return shannon(a, b, given, sorted(acc, key=lambda z: z.dg))


def equal(a, b):
    """semantic equality of normal forms: identity, rational identity, propositional equivalence, congruence"""
    memo = {}

    def go(x, y):
        if x is y:
            return True
        k = (x, y)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = False
        if is_bool(x) and is_bool(y):
            r = bool_equal(x, y)
        if not r and not is_bool(x) and not is_bool(y) and (x.op == 'poly' or y.op == 'poly'):
            r = num_equal(x, y)
        if not r and x.op == y.op and len(x.a) == len(y.a) and x.op not in ('poly',):
            r = all(eqarg(p, q) for p, q in zip(x.a, y.a))
            if not r and x.op in ('min', 'max', 'and', 'or') and len(x.a[0]) == len(y.a[0]):
                ys = list(y.a[0])
                ok = True
                for p in x.a[0]:
                    for q in ys:
                        if go(p, q):
                            ys.remove(q)
                            break
                    else:
                        ok = False
                        break
                r = ok
        if not r and x.op == 'poly' and y.op == 'poly' and len(x.a[0]) == len(y.a[0]):
            r = poly_congruent(x, y)
        memo[k] = r
        return r

    def poly_congruent(x, y):
        ys = list(y.a[0])
        for m, c in x.a[0]:
            for i, (m2, c2) in enumerate(ys):
                if c == c2 and mono_congruent(m, m2):
                    del ys[i]
                    break
            else:
                return False
        return True

    def mono_congruent(m, m2):
        if len(m) != len(m2):
            return False
        rest = list(m2)
        for f, e in m:
            for i, (f2, e2) in enumerate(rest):
                if e == e2 and go(f, f2):
                    del rest[i]
                    break
            else:
                return False
        return True

    def eqarg(p, q):
        if isinstance(p, T) and isinstance(q, T):
            return go(p, q)
        if isinstance(p, tuple) and isinstance(q, tuple):
            return len(p) == len(q) and all(eqarg(u, v) for u, v in zip(p, q))
        return p == q and type(p) == type(q)

    return go(a, b)


def _split_atom(x, y):
    """a condition on which either term branches, outermost first"""
    frontier = [x, y]
    seen = set()
    while frontier:
        nxt = []
        for z in frontier:
            if z in seen:
                continue
            seen.add(z)
            c = z.a[0] if z.op == 'ite' else (z if z.op in ('and', 'or') and (z is x or z is y) else None)
            if c is not None:
                acc = set()
                _bool_atoms(c, acc)
                acc = [q for q in acc if not has_free_bv(q)]
                if acc:
                    return min(acc, key=lambda q: q.dg)
            nxt.extend(_walk_children(z.a))
        frontier = nxt
    return None


_fbv = {}


def has_free_bv(x):
    """mentions a bound variable of an enclosing binder"""
    r = _fbv.get(x)
    if r is None:
        r = x.op in ('bv', 'lv') or any(has_free_bv(c) for c in _walk_children(x.a))
        _fbv[x] = r
    return r


def cases(a, b, given=None, depth=7):
    """None when the terms agree in every case of their branch conditions, else (facts, a, b) of a differing case"""
    budget = [160]

    def go(x, y, g, d, fs):
        if x is y or g is FALSE or equal(x, y):
            return None
        budget[0] -= 1
        at = _split_atom(x, y) if d > 0 and budget[0] > 0 else None
        if at is None:
            return fs, x, y
        for lit in (at, lnot(at)):
            if any(_contradict(lit, f) for f in fs):
                continue
            h = land(lit, *fs, given or TRUE)
            if h is FALSE or len(fs) > 1 and any(assume(f, land(lit, *[g2 for g2 in fs if g2 is not f])) is FALSE for f in fs + (lit,)):
                continue
            r = go(assume(x, h), assume(y, h), assume(g, lit), d - 1, fs + (lit,))
            if r is not None:
                return r
        return None
    return go(a, b, given or TRUE, depth, ())


def _contradict(lit, f):
    if lit is lnot(f):
        return True
    return assume(lit, f) is FALSE


def diff(a, b):
    """innermost pair of differing subterms"""
    if equal(a, b):
        return None
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ('poly', 'and', 'or', 'min', 'max'):
        bad = []

        def cmpargs(p, q):
            if isinstance(p, T) and isinstance(q, T):
                d = diff(p, q)
                if d:
                    bad.append(d)
                return
            if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                for u, v in zip(p, q):
                    cmpargs(u, v)
                return
            if p != q:
                bad.append((a, b))
        for p, q in zip(a.a, b.a):
            cmpargs(p, q)
        if len(bad) == 1:
            return bad[0]
    return (a, b)


# ---------------------------------------------------------------- printing
def show(t, depth=14):
    if depth <= 0:
        return '…'
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else ('(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    op = t.op
    if op == 'num':
        v = t.a[0]
        return str(v) if v.denominator == 1 else ('%g' % float(v))
    if op == 'const':
        return repr(t.a[0])
    if op == 'poly':
        out = []
        for m, c in t.a[0]:
            fs = []
            for f, e in m:
                b = s(f)
                if f.op in ('poly', 'ite'):
                    b = '(' + b + ')'
                fs.append(b if e == 1 else f'{b}^{e}')
            if c != 1 or not fs:
                fs.insert(0, s(mk('num', c)))
            out.append('*'.join(fs))
        return ' + '.join(out).replace('+ -', '- ')
    if op in ('param', 'glob'):
        return str(t.a[0])
    if op == 'attr':
        return f'{s(t.a[0])}.{t.a[1]}'
    if op == 'item':
        return f'{s(t.a[0])}[{s(t.a[1])}]'
    if op == 'slice':
        return f'{s(t.a[0])}[{s(t.a[1])}:{s(t.a[2])}:{s(t.a[3])}]'
    if op == 'pos':
        return f'({s(t.a[0])} > 0)'
    if op == 'nn':
        return f'({s(t.a[0])} >= 0)'
    if op == 'eq':
        return f'({s(t.a[0])} == {s(t.a[1])})'
    if op == 'not':
        return f'not {s(t.a[0])}'
    if op in ('and', 'or'):
        return '(' + f' {op} '.join(s(x) for x in t.a[0]) + ')'
    if op == 'ite':
        return f'({s(t.a[1])} if {s(t.a[0])} else {s(t.a[2])})'
    if op == 'isnone':
        return f'({s(t.a[0])} is None)'
    if op == 'truth':
        return f'bool({s(t.a[0])})'
    if op == 'seq':
        return '[' + ', '.join(('*' if k == 's' else '') + s(x) for k, x in t.a[0]) + ']'
    if op == 'dict':
        return '{' + ', '.join((s(k) + ': ' if k.op != 'splice' else '**') + s(v) for k, v in t.a[0]) + '}'
    if op == 'len':
        return f'len({s(t.a[0])})'
    if op == 'idx':
        return f'i{t.a[0]}'
    if op == 'lv':
        return f'L{t.a[0]}.{t.a[1]}'
    if op == 'bv':
        return f'${t.a[0]}'
    if op == 'phi':
        return f'phi:{t.a[1]}#{t.a[0]}'
    if op == 'collect':
        c = '' if t.a[3] is TRUE else f' if {s(t.a[3])}'
        return f'[{s(t.a[2])} for ${t.a[0]}<{s(t.a[1])}{c}]'
    if op == 'sum':
        return f'sum({s(t.a[2])} for ${t.a[0]}<{s(t.a[1])})'
    if op == 'lambda':
        return f'(λ${t.a[0]}.{s(t.a[2])})'
    if op in ('call', 'app', 'mcall'):
        args = [s(x) for x in t.a[1]] if op != 'app' else []
        kw = [f'{k}={s(v)}' for k, v in (t.a[2] if op != 'app' else t.a[1])]
        return f'{t.a[0]}(' + ', '.join(args + kw) + ')'
    if op == 'rec':
        return f'{t.a[0]}(' + ', '.join(f'{k}={s(v)}' for k, v in t.a[1]) + ')'
    if op == 'fstr':
        return 'f"' + ''.join(p if isinstance(p, str) else '{' + s(p[0]) + (('!' + p[1]) if p[1] else '') + ((':' + p[2]) if p[2] else '') + '}' for p in t.a[0]) + '"'
    if op == 'padd':
        return f'({s(t.a[0])}+{s(t.a[1])})'
    return f'{op}(' + ', '.join(s(x) for x in t.a) + ')'


def rounded(op, a, b):
    """a floating-point operation whose result is rounded: equal to another one only when made of the same operands. Sums, differences
    and products of whole numbers are exact."""
    if op in ('Add', 'Sub', 'Mult') and is_int(a) and is_int(b):
        return {'Add': add, 'Sub': sub, 'Mult': mul}[op](a, b)
    if op == 'Sub':
        op, b = 'Add', neg(b)
    if op == 'Add':
        if a is ZERO or b is ZERO:
            return b if a is ZERO else a
        return mk('call', 'fp+', tuple(sorted((a, b), key=lambda x: x.dg)), ())
    if op == 'Mult':
        if a is ONE or b is ONE:
            return b if a is ONE else a
        return mk('call', 'fp*', tuple(sorted((a, b), key=lambda x: x.dg)), ())
    if op == 'Div' and b is ONE:
        return a
    return mk('call', {'Div': 'fp/', 'Pow': 'fp^'}.get(op, 'fp' + op), (a, b), ())
