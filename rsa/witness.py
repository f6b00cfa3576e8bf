"""Small counterexamples to an inequality between value terms: values for the free symbols under which everything known holds and the
inequality does not.

The terms are evaluated, not the program.  A counterexample makes an unproved obligation a violation; finding none leaves it undecided.
"""
import random
import time
from fractions import Fraction

from . import sample
from . import terms as t
from .sample import Skip

REALS = [Fraction(x) for x in ('1/2', '1', '3/2', '2', '5/2', '3', '1/4', '4', '7/3', '6', '1', '2', '3')]
WHOLE = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9]


class Small(sample.Model):
    def __init__(self, seed, flags, fix, apps, rnd):
        super().__init__(seed, flags)
        self.fix, self.apps, self.rnd = fix, apps, rnd
        self.cells = {}
        self.idx = {}
        self.states = ()

    def ev(self, x):
        if x in self.fix:
            return self.fix[x]
        return super().ev(x)

    def e_idx(self, x):
        raise Skip('index')

    def e_call(self, x):
        if x.a[0] == 'bitand':
            return Fraction(1)
        return super().e_call(x)

    def e_load(self, x):
        base, k = x.a[0], self.s1(x.a[1])
        if k != int(k):
            raise Skip('fractional position')
        key = (base, int(k))
        v = self.cells.get(key)
        if v is None:
            nat = t.is_nat(x) or t.is_int(x)
            v = self.cells[key] = Fraction(self.rnd.choice(WHOLE)) if nat else self.rnd.choice(REALS) * self.rnd.choice((1, 1, -1))
        return v

    def e_app(self, x):
        if x.a[0] not in self.apps:
            raise Skip('opaque ' + str(x.a[0]))
        m = Small(self.seed, self.fl, {t.mk('param', k): self.ev(v) for k, v in x.a[1]}, self.apps, self.rnd)
        v = m.ev(self.apps[x.a[0]])
        self.steps += m.steps
        return v

    def e_lstate(self, x):
        """value of a loop variable in the iteration looked at"""
        sig = x.a[0]
        for i, n in reversed(self.states):
            if n is sig.a[0] or n is None and sig.a[0] is t.NONE:
                return self.at_iteration(sig, int(self.fix[i]))
        raise Skip('loop state')

    def at_iteration(self, sig, k):
        n, lam, c = sig.a
        la = lam.a[2]
        if la.op != 'looparg':
            raise Skip('loop')
        depth = sample._loop_depth(la)
        lvl = lam.a[0]
        with sample._Bound(self, {lvl: Fraction(0)}):
            state = [self.ev(i) for i, u in la.a[2]]
        for j in range(k):
            env = {lvl: Fraction(j)}
            env.update({('lv', depth, m): s for m, s in enumerate(state)})
            with sample._Bound(self, env):
                if self.b(la.a[0]) or self.b(la.a[1]):
                    raise Skip('iteration not reached')
                state = [self.ev(u) for _, u in la.a[2]]
        env = {lvl: Fraction(k)}
        env.update({('lv', depth, m): s for m, s in enumerate(state)})
        with sample._Bound(self, env):
            if self.b(la.a[0]):
                raise Skip('iteration not reached')
        return state[int(c.a[0])]


def free_atoms(terms, loops):
    """symbols that get a value of their own"""
    out = []
    seen = set()
    idx = {i for i, n in loops}
    stack = list(terms)
    while stack:
        x = stack.pop()
        if x in seen or not isinstance(x, t.T):
            continue
        seen.add(x)
        if x in idx:
            continue
        if x.op in ('len', 'param') or x.op == 'attr' and x.a[0].op == 'param' or x.op == 'item' and x.a[0].op == 'attr' and x.a[0].a[1] == 'shape':
            out.append(x)
            continue
        if x.op == 'load':
            stack.append(x.a[1])
            continue
        stack.extend(t._walk_children(x.a))
    return sorted(out, key=lambda x: x.dg)


def search(goal, strict, conds, facts, every, loops, apps, seconds=12, draws=30000):
    """a line that describes a counterexample to goal >= 0 (goal > 0 when strict), or None"""
    terms = [goal] + list(conds) + list(facts) + [y for n, i, c in every for y in (n, c)] + [n for i, n in loops if n is not None]
    idx_every = [(i, None) for n, i, c in every]
    atoms = free_atoms(terms, list(loops) + idx_every)
    flags = sample.Flags(terms + list(apps.values()))
    rnd = random.Random(20)
    t0 = time.time()
    skipped = {}
    good = 0
    tests = [('nn', f) for f in facts if not depends(f, loops)] + [('b', c) for c in conds if not depends(c, loops)] + \
        [('every', e) for e in every] + [('count', n) for i, n in loops if n is not None and not depends(n, loops)]
    tests.sort(key=lambda z: sum(1 for y in t.subterms(z[1] if z[0] != 'every' else z[1][2])) + (50 if z[0] == 'every' else 0))
    near = {}

    def atoms_of(test):
        r = near.get(id(test))
        if r is None:
            kind, x = test
            ys = [x] if kind != 'every' else [x[0], x[2]]
            mine = free_atoms(ys, list(loops) + idx_every)
            cells_ = any(y.op == 'load' for z in ys for y in t.subterms(z))
            r = near[id(test)] = ([a for a in mine if a in known], cells_)
        return r
    known = set(atoms)

    def draw(a, big):
        if t.is_int(a):
            v = Fraction(rnd.choice(WHOLE) * (rnd.choice((1, 3, 5)) if big else 1))
            if not t.is_nat(a) and a.op == 'param' and rnd.random() < .15:
                v = -v
            return v
        return rnd.choice(REALS)

    for k in range(draws):
        if k % 16 == 0 and time.time() - t0 > seconds:
            break
        big = rnd.random() < .15
        fix = {a: draw(a, big) for a in atoms}
        cells = {}
        m = None
        for repair in range(40):
            m = Small(k, flags, fix, apps, rnd)
            m.cells = cells
            bad = None
            for test in tests:
                kind, x = test
                try:
                    if kind == 'nn' and m.s1(x) < 0 or kind == 'b' and not m.b(x) or kind == 'count' and m.count(x) <= 0 or \
                            kind == 'every' and not quantified(m, [x], flags, apps, rnd, fix):
                        bad = test
                        break
                except Skip as e:
                    skipped[str(e)] = skipped.get(str(e), 0) + 1
                    bad = test
                    break
            if bad is None:
                break
            mine, in_cells = atoms_of(bad)
            if in_cells and (not mine or rnd.random() < .5):
                cells.clear()
            elif mine:
                fix = dict(fix)
                a = rnd.choice(mine)
                fix[a] = draw(a, big or rnd.random() < .2)
            else:
                break
        else:
            bad = True
        if bad is not None:
            if sum(skipped.values()) > 20000:
                break
            continue
        for rep in range(12):
            f2 = dict(fix)
            try:
                m2 = Small(k, flags, f2, apps, rnd)
                m2.cells = m.cells
                m2.states = tuple(loops)
                ok = True
                for i, n in loops:
                    if n is None:
                        raise Skip('loop of unknown length')
                    c = m2.count(n)
                    if c <= 0:
                        ok = False
                        break
                    f2[i] = Fraction(rnd.choice((0, c - 1, c - 1, rnd.randrange(c))))
                    m2.base.clear()
                if not ok:
                    break
                if not all(m2.b(c) for c in conds) or not all(m2.s1(f) >= 0 for f in facts):
                    continue
                good += 1
                v = m2.s1(goal)
                if v < 0 or strict and v == 0:
                    if isinstance(v, float) and abs(v) < 1e-6:
                        continue
                    return describe(f2, m2.cells, loops)
            except Skip as e:
                skipped[str(e)] = skipped.get(str(e), 0) + 1
                continue
        if good > 6000:
            break
    if DEBUG:
        print('no counterexample', k, 'draws', good, 'good', skipped)
    return None


import os
DEBUG = os.environ.get("WDEBUG")


def depends(x, loops):
    return any(t.contains(x, i) for i, n in loops) or any(y.op == 'lstate' for y in t.subterms(x))


def quantified(m, every, flags, apps, rnd, fix):
    for n, i, c in every:
        for j in range(m.count(n)):
            m3 = Small(0, flags, dict(fix), apps, rnd)
            m3.cells = m.cells
            m3.fix[i] = Fraction(j)
            if not m3.b(c):
                return False
    return True


def describe(fix, cells, loops):
    idx = {i for i, n in loops}
    out = ['%s = %s' % (t.show(a), v) for a, v in fix.items() if a not in idx]
    out += ['%s[%d] = %s' % (t.show(b), k, v) for (b, k), v in sorted(cells.items(), key=lambda z: z[0][1])][:8]
    if idx:
        out.append('iteration (%s)' % ', '.join(str(fix[i]) for i, n in loops))
    return ', '.join(out)
