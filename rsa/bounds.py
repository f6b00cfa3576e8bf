"""Inequalities between value terms: a goal-directed prover for polynomials over loop indices, floors, minima, sums and array entries.

To show g >= 0 the prover removes one atom of g after another.  An atom a of g = C*a + D is replaced by a bound that follows from a
known fact A*a + B >= 0 (a guard that was passed, the range of a loop, the definition of floor or min, an invariant of a loop
variable): with C and A of suitable sign, |A|*g - |C|*(A*a + B) >= 0 implies g >= 0.  Signs of coefficients are proved in the
same way.  Everything is exact rational arithmetic on terms; nothing is run and no solver is involved.  A goal that is not
proved is not said to be false.
"""
from fractions import Fraction

from . import terms as t
from .terms import num, ONE, ZERO, TRUE, FALSE

F1 = Fraction(1)


class Budget(Exception):
    pass


def conj(c):
    if c is TRUE:
        return []
    return list(c.a[0]) if c.op == 'and' else [c]


def atoms(p):
    out = {}
    for m in p:
        for a, e in m:
            out.setdefault(a, set()).add(e)
    return out


def split(p, a):
    """p = sum of powers of a: {exponent: poly}"""
    out = {}
    for m, c in p.items():
        e = Fraction(0)
        rest = []
        for f, k in m:
            if f is a:
                e = k
            else:
                rest.append((f, k))
        out.setdefault(e, {})[tuple(rest)] = c
    return out


class Prover:
    def __init__(self, conds=(), loops=(), facts=(), parent=None, limit=6000):
        self.parent = parent
        self.limit = limit if parent is None else None
        self.count = [0] if parent is None else parent.count
        self.loops = dict(parent.loops) if parent else {}
        self.order = dict(parent.order) if parent else {}
        self.facts = list(parent.facts) if parent else []
        self.every = list(parent.every) if parent else []       # (count, idx, condition that holds for every idx below count)
        self.differ = list(parent.differ) if parent else []
        self.known = dict(parent.known) if parent else {}       # boolean terms
        self.memo = {}
        self.busy = set()
        self.signs = {}
        self.root = parent.root if parent else self
        self.bad = False
        for i, n in loops:
            self.loop(i, n)
        for g, s in facts:
            self.fact(g, s)
        for c in conds:
            self.learn(c)
        self.settle()

    # ------------------------------------------------------------ facts
    def loop(self, i, n):
        self.loops[i] = n
        self.order[i] = len(self.order)
        self.fact(i, False)
        if n is not None:
            self.fact(t.sub(t.sub(n, ONE), i), False)
            self.fact(t.sub(n, ONE), False)

    def fact(self, g, strict):
        if t.is_num(g):
            if g.a[0] < 0 or strict and g.a[0] == 0:
                self.bad = True
            return
        if strict and t.is_int(g):
            g, strict = t.sub(g, ONE), False
        if (g, strict) in self.facts:
            return
        self.facts.append((g, strict))
        p = t.to_poly(g)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and (m[0][0].op == 'min' and c > 0 or m[0][0].op == 'max' and c < 0):
                for x in m[0][0].a[0]:
                    self.fact(t.subst1(g, m[0][0], x) if hasattr(t, 'subst1') else t.add(g, t.mul(num(c), t.sub(x, m[0][0]))), strict)

    def learn(self, c):
        self.known[c] = TRUE
        if c is FALSE:
            self.bad = True
        elif c.op == 'and':
            for x in c.a[0]:
                self.learn(x)
        elif c.op == 'pos':
            self.fact(c.a[0], True)
        elif c.op == 'nn':
            self.fact(c.a[0], False)
        elif c.op == 'eq' and numeric(c.a[0]) and numeric(c.a[1]):
            d = t.sub(c.a[0], c.a[1])
            self.fact(d, False)
            self.fact(t.neg(d), False)
        elif c.op == 'truth':
            self.fact(t.sub(t.length(c.a[0]), ONE), False)
        elif c.op == 'not':
            x = c.a[0]
            if x.op == 'eq' and numeric(x.a[0]) and numeric(x.a[1]):
                self.differ.append(t.sub(x.a[0], x.a[1]))
            elif x.op == 'any':
                i, outer, inner = t.open_node(x)
                self.every.append((outer[0], i, t.lnot(inner[0])))
            elif x.op == 'truth':
                self.fact(t.neg(t.length(x.a[0])), False)

    def settle(self):
        """consequences of disequalities, and of facts about every entry of an array that is not empty"""
        for n, i, c in self.every[len(self.parent.every) if self.parent else 0:]:
            if closed(n) and self.prove(t.sub(n, ONE), False):
                self.learn(t.subst(c, {i: ZERO}))
                self.memo.clear()
        todo = self.differ[len(self.parent.differ) if self.parent else 0:]
        while todo:
            rest = []
            for d in todo:
                if d.op in ('call', 'app'):
                    continue
                for x in (d, t.neg(d)):
                    if self.prove(x, False):
                        self.fact(x, True)
                        self.memo.clear()
                        self.signs.clear()
                        break
                else:
                    rest.append(d)
            if len(rest) >= len(todo):
                break
            todo = rest

    def instances(self, terms):
        """instances of the quantified facts at the entries and maxima that occur in terms"""
        out = []
        seen = {y for x in terms for y in t.subterms(x) if y.op in ('load', 'maxof')}
        for n, i, c in self.every:
            src = {y for y in t.subterms(c) if y.op == 'load' and y.a[1] is i}
            for s in src:
                for y in seen:
                    if y.op == 'load' and y.a[0] is s.a[0] and y is not s:
                        k = y.a[1]
                        if closed(k) and self.below(k, n):
                            out.append(t.subst(c, {i: k}))
                    elif y.op == 'maxof' and y.a[0].op == 'collect':
                        j, outer, inner = t.open_node(y.a[0])
                        if inner[1] is TRUE and outer[0] is n and t.subst(inner[0], {j: i}) is s:
                            d = t.subst(c, {s: y})
                            if not t.contains(d, i):
                                out.append(d)
        return out

    def below(self, k, n):
        if k in self.loops and self.loops[k] is n:
            return True
        return self.prove(k, False) and self.prove(t.sub(t.sub(n, ONE), k), False)

    def assume(self, conds=(), loops=(), facts=()):
        return Prover(conds, loops, facts, parent=self)

    def absurd(self):
        return self.bad

    # ------------------------------------------------------------ signs
    def sign(self, a):
        """2: a > 0, 1: a >= 0, 0: unknown"""
        r = self.signs.get(a)
        if r is not None:
            return r
        if ('s', a) in self.busy:
            return 0
        self.busy.add(('s', a))
        try:
            r = self._sign(a)
        finally:
            self.busy.discard(('s', a))
        if r == 2 or not any(isinstance(b, tuple) and b[0] == 's' for b in self.busy):
            self.signs[a] = r
        return r

    def _sign(self, a):
        op = a.op
        if op == 'num':
            return 2 if a.a[0] > 0 else 1 if a.a[0] == 0 else 0
        if self.prove(a, True):
            return 2
        if op in ('len', 'size', 'abs') or t.is_nat(a):
            return 1
        return 1 if self.prove(a, False) else 0

    def quick(self, p, strict):
        some = False
        for m, c in p.items():
            s = 2
            neg_ = c < 0
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0 and e > 0 or e.denominator != 1 and e > 0:
                    if s == 2 and strict and self.cheap(a) < 2:
                        s = 1
                    continue
                s = min(s, self.cheap(a))
                if e < 0 and s < 2:
                    s = 0
            if s == 0 or neg_:
                return False
            some = some or s == 2
        return some or not strict

    def cheap(self, a):
        """sign of an atom, without a search"""
        if a in self.signs:
            return self.signs[a]
        op = a.op
        r = 0
        if a in self.loops or op in ('len', 'size', 'abs') or t.is_nat(a):
            r = 1
        for g, s in self.facts:
            if g is a:
                r = max(r, 2 if s else 1)
            else:
                p = t.to_poly(g)
                if len(p) == 2 and p.get(((a, F1),), 0) > 0 and () in p and p[()] < 0:
                    r = 2
        if op == 'maxof' and a.a[0].op == 'collect' and t.is_nat(t.open_node(a.a[0])[2][0]):
            r = max(r, 1)
        if op == 'floor' and not r and self.quick(t.to_poly(a.a[0]), False):
            r = 1
        if op == 'pow' and self.quick(t.to_poly(a.a[0]), True):
            r = 2
        if op == 'poly' and not r:
            p = t.to_poly(a)
            r = 2 if self.quick(p, True) else 1 if self.quick(p, False) else 0
        if op == 'sum' and not r:
            i, outer, inner = t.open_node(a)
            if self.root.depth_ok():
                q = self.assume(loops=[(i, outer[0])])
                if q.bad or q.prove(inner[0], False):
                    r = 1
        if r == 2 or op not in ('floor', 'poly', 'pow'):
            self.signs[a] = r if r else self.signs.get(a, 0)
            if not r:
                self.signs.pop(a, None)
        return r

    def floor_of(self, a):
        """constant lower bound of an atom among the facts"""
        r = 0 if self.cheap(a) else None
        for g, s in self.facts:
            p = t.to_poly(g)
            if len(p) <= 2 and p.get(((a, F1),), 0) > 0 and (len(p) == 1 or () in p):
                k = -p.get((), 0) / p[((a, F1),)]
                if r is None or k > r:
                    r = k
        return r

    def shifted(self, p, strict):
        """write every atom as its constant lower bound plus a non-negative rest"""
        m = {}
        for a, es in atoms(p).items():
            if all(e.denominator == 1 and e > 0 for e in es):
                k = self.floor_of(a)
                if k:
                    m[a] = k
        if not m:
            return False
        out = {}
        for mono, c in p.items():
            terms = {(): c}
            for f, e in mono:
                nxt = {}
                k = m.get(f)
                for r, x in terms.items():
                    if k is None:
                        nxt[r + ((f, e),)] = nxt.get(r + ((f, e),), 0) + x
                        continue
                    e_ = int(e)
                    b = 1
                    for j in range(e_ + 1):
                        q = r + (((f, Fraction(j)),) if j else ())
                        nxt[q] = nxt.get(q, 0) + x * b * k ** (e_ - j)
                        b = b * (e_ - j) // (j + 1)
                terms = nxt
            for r, x in terms.items():
                out[r] = out.get(r, 0) + x
        out = {r: x for r, x in out.items() if x}
        for r, c in out.items():
            if c < 0:
                return False
            for f, e in r:
                if f in m or e.denominator == 1 and e % 2 == 0 and e > 0:
                    continue
                if not self.cheap(f) or e < 0 and self.cheap(f) < 2:
                    return False
        return not strict or () in out

    def depth_ok(self):
        return True

    # ------------------------------------------------------------ goals
    def prove(self, g, strict=False, depth=14):
        if t.is_num(g):
            return g.a[0] > 0 or not strict and g.a[0] == 0
        if self.bad:
            return True
        key = (g, strict)
        r = self.memo.get(key)
        if r is True or r is not None and r >= depth:
            return r is True
        if key in self.busy or depth <= 0:
            return False
        self.count[0] += 1
        if self.count[0] > self.top().limit:
            raise Budget()
        self.busy.add(key)
        try:
            ok = self._prove(g, strict, depth)
        finally:
            self.busy.discard(key)
        if ok:
            self.memo[key] = True
        else:
            self.memo[key] = max(depth, self.memo.get(key, 0))
        return ok

    def top(self):
        return self.root

    def _prove(self, g, strict, depth):
        p = t.to_poly(g)
        if self.quick(p, strict):
            return True
        if self.shifted(p, strict):
            return True
        for f, s in self.facts:
            d = t.sub(g, f)
            if t.is_num(d) and (d.a[0] > 0 or d.a[0] == 0 and (s or not strict)):
                return True
        # branches
        for a in atoms(p):
            for y in self.branches(a):
                return self.by_cases(g, strict, y, depth)
        # denominators
        for a, es in atoms(p).items():
            lo = min(es)
            if lo < 0 and lo.denominator == 1:
                s = self.sign(a)
                if s == 2:
                    return self.prove(scale(p, a, -lo), strict, depth - 1)
                if self.prove(t.neg(a), True, depth - 4):
                    q = scale(p, a, -lo)
                    return self.prove(q if lo % 2 == 0 else t.neg(q), strict, depth - 1)
                return False
        # common factors; whole numbers
        whole = t.is_int(g)
        loose = t.sub(g, ONE) if strict and whole else g
        r = self.factor(loose, strict and not whole, depth)
        if r is not None:
            return r
        if whole:
            g = g if strict else t.add(g, ONE)
            strict = True
            p = t.to_poly(g)
            if self.quick(p, strict):
                return True
        return self.eliminate(g, p, strict, depth)

    def factor(self, g, strict, depth):
        p = t.to_poly(g)
        if not p or () in p:
            return None
        common = None
        for m in p:
            d = {f: e for f, e in m if e > 0 and e.denominator == 1}
            common = d if common is None else {f: min(e, d[f]) for f, e in common.items() if f in d}
            if not common:
                return None
        for a in sorted(common, key=lambda x: x.dg):
            s = self.sign(a)
            if s == 2 or s == 1 and not strict:
                q = {}
                for m, c in p.items():
                    q[tuple((f, e - 1 if f is a else e) for f, e in m if not (f is a and e == 1))] = c
                return self.prove(t.from_poly(q), strict, depth - 1)
        return None

    def branches(self, a):
        if a.op == 'ite':
            yield a
            return
        if closed(a) and a.op in ('floor', 'min', 'max', 'pow', 'poly'):
            for y in t.subterms(a):
                if y.op == 'ite' and closed(y) and numeric(y):
                    yield y
                    return

    def by_cases(self, g, strict, y, depth):
        c, u, v = y.a
        for cond, val in ((c, u), (t.lnot(c), v)):
            q = self.assume([cond])
            if q.bad:
                continue
            if not q.prove(t.assume(t.subst(g, {y: val}), cond), strict, depth - 1):
                return False
        return True

    def eliminate(self, g, p, strict, depth):
        todo = sorted(atoms(p), key=self.rank)
        inner = [a for a in todo if any(b is not a and t.contains(b, a) for b in todo)]
        # what also occurs inside another atom comes last, and only in goals that stay small
        for a in [a for a in todo if a not in inner] + (inner if len(p) <= 2 else []):
            cs = split(p, a)
            if set(cs) - {Fraction(0), F1}:
                continue
            C = t.from_poly(cs[F1])
            D = t.from_poly(cs.get(Fraction(0), {}))
            up, down = self.direction(C, depth - 3)
            if not up and not down:
                if a in self.loops and self.loops[a] is not None and not t.contains(self.loops[a], a):
                    # affine in a loop index: both ends
                    if self.prove(D, strict, depth - 2) and self.prove(t.add(D, t.mul(C, t.sub(self.loops[a], ONE))), strict, depth - 2):
                        return True
                continue
            if a.op == ('min' if up else 'max'):
                # the least of several: every one of them must do
                if all(self.prove(t.add(D, t.mul(C, x)), strict, depth - 1) for x in a.a[0]):
                    return True
            if a.op in ('gloop', 'lstate') and self.invariant(a, C, t.sub(D, ONE) if strict else D, not strict or t.is_int(g)):
                return True
            absC = C if up else t.neg(C)
            for f, s in self.bounds(a, up, g, C, D):
                q = t.to_poly(f)
                fs = split(q, a)
                if F1 not in fs or set(fs) - {Fraction(0), F1}:
                    continue
                A = t.from_poly(fs[F1])
                if t.is_num(A):
                    if (A.a[0] > 0) != up:
                        continue
                    absA = num(abs(A.a[0]))
                else:
                    absA = A if up else t.neg(A)
                    if not self.prove(absA, True, depth - 4):
                        continue
                new = t.sub(t.mul(absA, g), t.mul(absC, f))
                st = strict and not (s and (t.is_num(C) or self.prove(absC, True, depth - 4)))
                if self.prove(new, st, depth - 1):
                    return True
            if a in self.loops or a.op == 'floor' and False:
                continue
        return False

    def direction(self, C, depth):
        """is a coefficient known to be non-negative, or not positive?"""
        if t.is_num(C):
            return C.a[0] > 0, C.a[0] <= 0
        for x, r in ((C, (True, False)), (t.neg(C), (False, True))):
            p = t.to_poly(x)
            if self.quick(p, False) or self.shifted(p, False):
                return r
        if self.prove(C, False, depth):
            return True, False
        return False, self.prove(t.neg(C), False, depth)

    RANK = {'gloop': 1, 'lstate': 1, 'min': 2, 'max': 2, 'floor': 3, 'sum': 4, 'load': 5, 'call': 6, 'pow': 7}

    def rank(self, a):
        if a in self.loops:
            return (0, -self.order[a], a.dg)
        d = depth_of(a)
        return (1, -d, self.RANK.get(a.op, 9), a.dg)

    def bounds(self, a, up, g, C, D):
        """facts about a: lower bounds (up) or upper bounds"""
        op = a.op
        if op == 'floor':
            if up:
                yield t.add(t.sub(a, a.a[0]), ONE), True
            else:
                yield t.sub(a.a[0], a), False
            if up and self.sign(a):
                yield a, False
        elif op == 'min':
            if not up:
                for x in sorted(a.a[0], key=opaque):
                    yield t.sub(x, a), False
        elif op == 'max':
            if up:
                for x in sorted(a.a[0], key=opaque):
                    yield t.sub(a, x), False
        elif op == 'maxof' and up:
            for y in {y for y in t.subterms(g) if y.op == 'load'}:
                r = self.member(a, y)
                if r:
                    yield t.sub(a, y), False
        elif op == 'load' and not up:
            for y in {y for y in t.subterms(g) if y.op == 'maxof'}:
                if self.member(y, a):
                    yield t.sub(y, a), False
        elif op == 'pow' and up:
            b, k = a.a
            if self.prove(t.sub(b, ONE), False) and self.prove(k, False):
                yield t.sub(a, ONE), False
        elif op == 'sum':
            yield from self.partial(a, up, g)
        elif op in ('gloop', 'lstate'):
            yield from self.invariants(a, up, g, C, D)
        elif op == 'firsthit' and not up and numeric(a.a[0]):
            yield t.sub(a.a[0], a), False
        for c in self.instances([a]):
            q = self.assume([c])
            for f in q.facts[len(self.facts):]:
                if t.contains(f[0], a):
                    yield f
        here = atoms(t.to_poly(g))
        for f, s in self.facts:
            if t.contains(f, a) and not (a in self.order and any(self.order.get(b, -1) > self.order[a] and b not in here for b in atoms(t.to_poly(f)))):
                # (what is known of an inner index does not help with an outer one)
                yield f, s
        if up and self.cheap(a):
            yield a, False

    def member(self, m, y):
        """y is one of the values m is the largest of"""
        s = m.a[0]
        if s.op != 'collect':
            return False
        i, outer, inner = t.open_node(s)
        b = inner[0]
        return inner[1] is TRUE and b.op == 'load' and b.a[1] is i and y.a[0] is b.a[0] and closed(y.a[1]) and self.below(y.a[1], outer[0])

    def partial(self, a, up, g):
        """sums of non-negative terms over a part of the range and over the whole of it"""
        for y in {y for y in t.subterms(g) if y.op == 'sum' and y is not a}:
            part, whole = (y, a) if up else (a, y)
            i, (n,), (f,) = t.open_node(part)
            j, (N,), (h,) = t.open_node(whole)
            if t.subst(h, {j: i}) is not f or not closed(n) or not closed(N):
                continue
            q = self.assume(loops=[(i, N)])
            if not (q.bad or q.prove(f, False)):
                continue
            if self.prove(n, False) and self.prove(t.sub(N, n), True):
                # one more term fits
                yield t.sub(t.sub(whole, part), t.subst(f, {i: n})), False
            if self.prove(n, False) and self.prove(t.sub(N, n), False):
                yield t.sub(whole, part), False
        if up:
            i, (n,), (f,) = t.open_node(a)
            if closed(n):
                q = self.assume(loops=[(i, n)])
                if q.bad or q.prove(f, False):
                    yield a, False

    # ------------------------------------------------------------ loop variables
    def state(self, a):
        """(count, [(initial value, update)], component, index, symbols for the values at the start of an iteration)"""
        sig = a.a[0] if a.op == 'lstate' else a
        n, lam, k = sig.a
        la = lam.a[2]
        if la.op != 'looparg' or not t.is_num(k):
            return None
        i, outer, inner = t.open_node(lam)
        la = inner[0]
        vs = la.a[2]
        lvs = {}
        d = lv_depth(la)
        for y in t.subterms(la):
            if y.op == 'lv' and y.a[0] == d:
                lvs[y.a[1]] = y
        sym = {}
        for q, y in lvs.items():
            z = t.mk('loopvar', i, q)
            if y.a[-1] == 'i':
                t.INT_ATOMS.add(z)
            sym[q] = z
        ren = {lvs[q]: sym[q] for q in sym}
        return n, [(u, t.subst(v, ren)) for u, v in vs], int(k.a[0]), i, sym, t.subst(la.a[0], ren), t.subst(la.a[1], ren)

    def invariant(self, a, C, D, fit):
        """C*a + D >= 0 because it is so before the loop and stays so"""
        s = self.state(a) if fit else None
        if s is None:
            return False
        n, vs, k, i, sym, ex, stop = s
        init, nxt = vs[k]
        if not numeric(init) or not numeric(nxt):
            return False
        z = sym.get(k) or t.mk('loopvar', i, k)
        key = ('ind', a, C, D)
        if key in self.root.busy:
            return False
        self.root.busy.add(key)
        try:
            return self.inductive(lambda x: t.add(t.mul(C, x), D), init, nxt, z, i, n, ex, stop)
        finally:
            self.root.busy.discard(key)

    def invariants(self, a, up, g, C, D):
        s = self.state(a)
        if s is None:
            return
        n, vs, k, i, sym, ex, stop = s
        init, nxt = vs[k]
        if not numeric(init) or k not in sym and not numeric(nxt):
            return
        z = sym.get(k)
        if z is None:
            z = t.mk('loopvar', i, k)
        # values change by a bounded amount each time
        inside_ = a.op == 'lstate'
        q = self.assume(loops=[(i, n)]) if n is not t.NONE else self.assume()
        step = t.sub(nxt, z)
        if up:
            for d in (ZERO, ONE):
                if q.prove(t.sub(step, d), False):
                    yield t.sub(a, init), False
                    break
        else:
            for d in (ZERO, ONE):
                if q.prove(t.sub(d, step), False):
                    if d is ZERO:
                        yield t.sub(init, a), False
                    elif n is not t.NONE:
                        if inside_:
                            for j, m in self.loops.items():
                                if m is n:
                                    yield t.sub(t.add(init, j), a), False
                            yield t.sub(t.add(init, t.sub(n, ONE)), a), False
                        elif self.prove(n, False):
                            yield t.sub(t.add(init, n), a), False
                    break

    def inductive(self, G, init, nxt, z, i, n, ex, stop):
        if t.contains(G(ZERO), i):
            return False
        if not self.prove(G(init), False):
            return False
        # a lower bound of zero is worth knowing for the step
        extra = []
        if G(z) is not z and t.is_int(nxt) and self.inductive(lambda x: x, init, nxt, z, i, n, ex, stop):
            extra.append((z, False))
        q = self.assume(conds=[t.lnot(ex)] if ex is not FALSE and t.is_bool(ex) else [], loops=[(i, n)] if n is not t.NONE else [], facts=[(G(z), False)] + extra)
        return q.bad or q.prove(G(nxt), False)


def opaque(x):
    return (x.op in ('app', 'call'), x.dg)


def loose(x, _m={}):
    """levels of the bound variables that are not bound inside x"""
    if not x.lvl:
        return ()
    r = _m.get(x)
    if r is None:
        if x.op == 'bv':
            r = frozenset((x.a[0],))
        else:
            r = frozenset().union(*[loose(c) for c in t._walk_children(x.a)])
            if x.op in t.BINDERS:
                r -= {x.a[0]}
        _m[x] = r
    return r


def closed(x):
    return not loose(x)


def lv_depth(la):
    return max([y.a[0] for y in t.subterms(la) if y.op == 'lv'] or [0])


def depth_of(a, _m={}):
    r = _m.get(a)
    if r is None:
        r = _m[a] = 1 + max([depth_of(c) for c in t._walk_children(a.a)] + [0])
    return r


def numeric(x):
    return x.op not in ('const', 'seq', 'fstr', 'dict', 'glob', 'fun', 'ref', 'padd', 'collect', 'rec', 'str', 'flat', 'concat') and not t.is_bool(x) and \
        not (x.op == 'ite' and not (numeric(x.a[1]) and numeric(x.a[2])))


def scale(p, a, d):
    """p * a**d, with the powers of a cancelled"""
    out = ZERO
    for m, c in p.items():
        e = Fraction(0)
        rest = []
        for f, k in m:
            if f is a:
                e = k
            else:
                rest.append((f, k))
        x = t.from_poly({tuple(rest): c})
        e += d
        if e:
            x = t.mul(x, t.power(a, num(e)))
        out = t.add(out, x)
    return out
