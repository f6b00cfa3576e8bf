"""Comparison of analysed functions with reference definitions, both reduced to value-flow normal forms.

The verdict of a comparison is
  holds      the two normal forms are equal (identity, rational identity, propositional equivalence, congruence)
  violated   they differ, and the difference is expressed in operations the normal form gives a meaning to
  undecided  they differ, but the code uses a construct the normal form leaves uninterpreted on one side only
"""
import ast
import os

from . import eval as E
from . import lib
from . import pyfront
from . import sample
from . import terms as t
from .report import AnchorLost

SPEC = 'riptide.zzspec'


def walk(x, f, seen=None):
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        f(y)
        stack.extend(t._walk_children(y.a))


FREE = {'gloop', 'calld', 'badcall', 'deep', 'gphi', 'phi', 'fun', 'undef', 'anyiter', 'ref', 'unknown'}


def vocabulary(x):
    """uninterpreted symbols occurring in a term"""
    out = set()

    def f(y):
        if y.op in ('call', 'mcall'):
            out.add((y.op, y.a[0]))
        elif y.op == 'app':
            out.add(('app', y.a[0]))
        elif y.op in FREE:
            out.add(('op', y.op))
        elif y.op == 'glob' and y not in tests:
            out.add(('glob', y.a[0]))
    tests = {y.a[1] for y in t.subterms(x) if y.op == 'isinst' and isinstance(y.a[1], t.T) and str(y.a[1].a[0]).startswith('riptide.')}
    walk(x, f)
    return out


OPAQUE_OK = set()      # functions kept symbolic on purpose


def foreign(actual, specs):
    """symbols of `actual` that have no agreed meaning in the comparison"""
    known = {('app', q) for q in OPAQUE_OK}
    for s in specs:
        known |= vocabulary(s)
    bad = []
    for v in vocabulary(actual):
        if v in known:
            continue
        if v[0] in ('call', 'mcall') and (v[1] in lib.KNOWN or v[1] in KNOWN_METHODS):
            continue
        if v == ('op', 'badcall') or v[0] == 'call' and str(v[1]).startswith('fp'):
            continue
        if v[0] == 'glob' and (v[1].startswith('np.') or v[1] in lib.KNOWN or '.' not in v[1]):
            continue
        bad.append(v)
    return bad


def _loops(x):
    out = []
    walk(x, lambda y: out.append(y) if y.op == 'gloop' and y.a[2].op != 'const' else None)
    return out


def _pieces(g):
    i, outer, inner = t.open_node(g.a[1])
    la = inner[0]
    return g.a[0], la.a[0], la.a[1], la.a[2]


def _relabel(x, lvd, perm):
    m = {}
    for y in t.subterms(x):
        if y.op == 'lv' and y.a[0] == lvd and y.a[1] in perm:
            m[y] = t.mk('plv', perm[y.a[1]], y.a[2])
    return t.subst(x, m) if m else x


def loop_distance(a, b):
    """number of differing pieces (bound, exit, stop, each initial value and update) of two summarised loops, or None"""
    import itertools
    na, xa, sa, va = _pieces(a)
    nb, xb, sb, vb = _pieces(b)
    if len(va) != len(vb) or len(va) > 5:
        return None
    lv = [y.a[0] for x in (xa, sa, *[v for q in va for v in q]) for y in t.subterms(x) if y.op == 'lv']
    lvb = [y.a[0] for x in (xb, sb, *[v for q in vb for v in q]) for y in t.subterms(x) if y.op == 'lv']
    da, db = max(lv or [1]), max(lvb or [1])
    ident = {i: i for i in range(len(vb))}
    R = lambda x: _relabel(x, db, ident)
    best = None
    for p in itertools.permutations(range(len(va))):
        perm = {i: p[i] for i in range(len(va))}
        A = lambda x: _relabel(x, da, perm)
        d = (na is not nb) + (not t.equal(A(xa), R(xb))) + (not t.equal(A(sa), R(sb)))
        for i in range(len(va)):
            u, v = va[i], vb[p[i]]
            d += (not t.equal(A(u[0]), R(v[0]))) + (not t.equal(A(u[1]), R(v[1])))
        if best is None or d < best:
            best = d
    return best


def loops_differ_in_shape(actual, specs):
    """the two sides contain loops that are not the same loop up to a local difference"""
    la = _loops(actual)
    if not la:
        return False
    ls = [g for s in specs for g in _loops(s)]
    for g in la:
        if any(g is h or t.equal(g, h) for h in ls):
            continue
        ds = [loop_distance(g, h) for h in ls]
        if not any(d is not None and d <= 2 for d in ds):
            return True
    return False


KNOWN_METHODS = {'format', 'strip', 'split', 'rsplit', 'lower', 'upper', 'replace', 'rstrip', 'lstrip', 'startswith', 'endswith',
                 'decode', 'encode', 'keys', 'items', 'values', 'get', 'astype', 'join'}


FLOATS = {t.mk('glob', n) for n in ('np.float32', 'np.float64', 'float')}


def nocast(x):
    """forget conversions between floating point types (precision is a property of its own)"""
    return t.replace(x, lambda y: y.a[0] if y.op == 'cast' and y.a[1] in FLOATS else None)


def declared_ints(x):
    """terms tested to be integers"""
    return {y.a[0] for y in t.subterms(x) if y.op == 'isinst' and y.a[1].op == 'glob' and y.a[1].a[0] == 'int'}


def decide(actual, specs, given=None):
    """('holds'|'violated'|'undecided', detail)"""
    actual = nocast(actual)
    specs = [nocast(s) for s in specs]
    if given is not None:
        actual = t.assume(actual, given)
        specs = [t.assume(s, given) for s in specs]
    for s in specs:
        if actual is s or t.equal(actual, s):
            return 'holds', ''
    actual, specs = t.relevel(actual), [t.relevel(s) for s in specs]
    if any(actual is s for s in specs):
        return 'holds', ''
    facts, ca, cs = (), actual, specs[0]
    for s in specs:
        r = t.cases(actual, s, given and nocast(given))
        if r is None:
            return 'holds', ''
        if s is specs[0]:
            facts, ca, cs = r
    ints = [x for x in declared_ints(actual) if x not in t.INT_ATOMS and any(x in declared_ints(s) for s in specs)]
    if ints:
        t.INT_ATOMS.update(ints)
        try:
            again = lambda x: t.replace(x, lambda y: t.pos(y.a[0]) if y.op == 'pos' else t.nn(y.a[0]) if y.op == 'nn' else None)
            v = decide(again(actual), [again(s) for s in specs], None if given is None else again(given))
            if v[0] == 'holds':
                return v
        finally:
            t.INT_ATOMS.difference_update(ints)
    a, b = t.diff(ca, cs)
    det = 'found:    %s\nexpected: %s' % (t.show(a), t.show(b))
    if facts:
        det += '\nwhen:     ' + ' and '.join(t.show(f) for f in facts)
    if loops_differ_in_shape(actual, specs):
        return 'undecided', 'loop of another shape; ' + det
    fo = foreign(actual, specs)
    if fo:
        return 'undecided', 'uninterpreted: %s; %s' % (sorted(map(str, fo))[:6], det)
    if not os.environ.get('RSA_NOSAMPLE'):
        for s in specs:
            v = sample.compare(actual, s, given and nocast(given), facts)
            STATS.append((v, det))
            if v[0] == 'agree':
                return 'undecided', 'the normal forms differ but agree in %d models; %s' % (v[1], det)
    return 'violated', det


STATS = []


TS = 'riptide.time_series.TimeSeries'
RET_TYPES = {TS + '.' + m: TS for m in ('copy', 'deredden', 'normalise', 'downsample', 'generate', 'from_numpy_array', 'from_binary',
                                        'from_npy_file', 'from_presto_inf', 'from_sigproc', 'from_dict')}


class Suite:
    def __init__(self, rep, src='', prog=None):
        self.rep = rep
        self.prog = prog or pyfront.Program()
        if src:
            self.prog.add_source(SPEC, src)
        rep.digest = self.prog.digest()

    # -------------------------------------------------------------- anchors
    def node(self, qual):
        r = self.prog.resolve(qual)
        if r is None or r[0] not in ('func', 'method', 'class'):
            raise AnchorLost('%s not found in the sources' % qual)
        return r

    def where(self, qual):
        r = self.node(qual)
        n = r[2][1] if r[0] == 'method' else r[2]
        return '%s:%d' % (r[1].path, n.lineno)

    def argnames(self, qual):
        r = self.prog.resolve(qual)
        if r is None:
            raise AnchorLost('%s not found in the sources' % qual)
        n = r[2][1] if r[0] == 'method' else r[2]
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                    n = s
        a = n.args
        return [x.arg for x in a.posonlyargs + a.args], n

    def run(self, qual, **kw):
        """analyse an entry point; None when a construct is outside the modelled language"""
        types = kw.pop('types', None)
        fixed = kw.pop('fixed', None)
        flags = kw.pop('flags', {})
        OPAQUE_OK.update(kw.get('opaque', ()))
        kw['ret_types'] = {**RET_TYPES, **kw.get('ret_types', {})}
        ev = E.Ev(self.prog, **kw)
        for k, v in flags.items():
            setattr(ev, k, v)
        try:
            r = ev.run(qual, types=types, fixed=fixed)
        except E.Unsupported as e:
            if self.prog.resolve(qual) is None:
                raise AnchorLost('%s not found in the sources' % qual)
            r = None
            self.last_error = str(e)
        except RecursionError as e:
            r = None
            self.last_error = 'nesting too deep'
        self.rep.consulted |= {q for q in ev.inlined if not q.startswith(SPEC)}
        return r

    def pair(self, qual, specs, **kw):
        """run the function and its reference definitions on the same symbolic parameters"""
        if isinstance(specs, str):
            specs = [specs]
        self.node(qual)
        names, n = self.argnames(qual)
        snames, sn = self.argnames(SPEC + '.' + specs[0])
        fixed = dict(kw.pop('fixed', None) or {})
        skip = 1 if names and snames and names[0] in ('self', 'cls') else 0
        for a, s in zip(names[skip:], snames[skip:]):
            fixed.setdefault(a, t.mk('param', s))
        act = self.run(qual, fixed=fixed, **{k: (v if k != 'types' else {a: v[s] for a, s in zip(names, snames) if v and s in v})
                                             for k, v in kw.items()})
        out = []
        for s in specs:
            sfixed = {}
            if snames and snames[0] in ('self', 'cls'):
                r = self.prog.resolve(qual)
                sfixed['self'] = t.mk('param', 'self')
                kw2 = dict(kw)
                ty = dict(kw2.get('types') or {})
                if r[0] == 'method':
                    ty['self'] = self.prog.resolve(qual.rsplit('.', 1)[0])[3]
                kw2['types'] = ty
            else:
                kw2 = kw
            rs = self.run(SPEC + '.' + s, fixed=sfixed, **kw2)
            if rs is None:
                raise RuntimeError('reference %s cannot be analysed: %s' % (s, self.last_error))
            out.append(rs)
        return act, out

    # -------------------------------------------------------------- verdicts
    def judge(self, rule, subject, actual, specs, where='', given=None, key=None):
        v, det = decide(actual, specs, given)
        if v == 'holds':
            self.rep.holds(rule, subject, where)
        elif v == 'violated':
            self.rep.violated(rule, subject, where, det, key)
        else:
            self.rep.undecided(rule, subject, where, det)
        return v

    def value(self, r, given=None):
        """return value on normal return"""
        rc = r.raise_cond()
        v = r.ret
        if rc is not t.FALSE:
            v = t.assume(v, t.lnot(rc))
        if given is not None:
            v = t.assume(v, given)
        return v

    def fn(self, qual, specs, parts=('ret', 'raises'), rule='value-flow normal form equals the reference definition',
           subject=None, given=None, **kw):
        act, sp = self.pair(qual, specs, **kw)
        where = self.where(qual)
        subject = subject or qual.replace('riptide.', '', 1)
        if act is None:
            self.rep.undecided(rule, subject, where, self.last_error)
            return None, sp
        if 'ret' in parts:
            accepted = t.lnot(act.raise_cond())
            self.judge(rule, subject + ': result', self.value(act, given), [self.value(s, given) for s in sp], where,
                       given if accepted is t.TRUE else accepted if given is None else t.land(given, accepted))
        if 'raises' in parts:
            self.judge(rule, subject + ': refusals', act.raise_cond(), [s.raise_cond() for s in sp], where, given)
        if 'state' in parts:
            self.state(rule, subject, act, sp, where, given)
        return act, sp

    def state(self, rule, subject, act, sp, where, given=None, fields=None, base=None):
        """fields of the receiver after the call"""
        base = base or t.mk('param', 'self')

        def final(r):
            rc = r.raise_cond()
            out = {}
            for (loc, f), v in r.state.heap.items():
                if loc is base:
                    x = r.ev.deref(v, r.state)
                    out[f] = t.assume(x, t.lnot(rc)) if rc is not t.FALSE else x
            return out
        fa = final(act)
        for s in sp:
            pass
        fs = [final(s) for s in sp]
        for f in sorted(set(fa) | set().union(*fs)):
            if fields is not None and f not in fields:
                continue
            unch = t.attr(base, f)
            if f not in set().union(*fs) and f.startswith('_') and fields is None:
                continue
            self.judge(rule, '%s: field %s' % (subject, f), fa.get(f, unch), [x.get(f, unch) for x in fs], where, given)
        return fa, fs


    def effects(self, rule, subject, act, refs, select, where='', key=None):
        """the effects picked by select(event) -> payload or None are those of one of the references"""
        def pick(r):
            out = []
            for e in r.events:
                p = select(e)
                if p is not None:
                    out.append(close(e, p))
            return out
        a = pick(act)
        best = None
        for r in refs:
            left, over = pick(r), []
            for x in a:
                hit = next((y for y in left if decide(x, [y])[0] == 'holds'), None)
                if hit is None:
                    over.append(x)
                else:
                    left.remove(hit)
            if not over and not left:
                self.rep.holds(rule, subject, where)
                return 'holds'
            if best is None or len(over) + len(left) < len(best[0]) + len(best[1]):
                best = (over, left)
        over, left = best
        worst, det = 'violated', []
        for i, x in enumerate(over):
            v, d = decide(x, [left[i]]) if i < len(left) else decide(x, [t.NONE])
            if v == 'undecided':
                worst = 'undecided'
            det.append(d)
        for y in left[len(over):]:
            det.append('missing:  ' + t.show(y))
        if worst == 'violated':
            self.rep.violated(rule, subject, where, '\n'.join(det), key)
        else:
            self.rep.undecided(rule, subject, where, '; '.join(det))
        return worst


# ------------------------------------------------------------------ events
def close(e, payload):
    """an event as a closed term: loops become binders, its guard the filter of the innermost one"""
    if not e.loops:
        return t.mk('when', e.guard, payload)
    # a loop over an empty sequence does nothing: conditions that only say that it is not empty are implied
    implied = set()
    for idx, n in e.loops:
        if n is not None:
            implied |= {t.pos(n), t.ne(n, t.ZERO)}
            if n.op == 'len':
                implied.add(t.truth(n.a[0]))
    cond = t.land(*[c for c in (e.guard.a[0] if e.guard.op == 'and' else [e.guard]) if c not in implied])
    out = payload
    loops = list(e.loops)
    for idx, n in reversed(loops):
        # split the conjuncts that depend on this index
        cs = list(cond.a[0]) if cond.op == 'and' else [cond]
        mine = [c for c in cs if t.contains(c, idx)]
        rest = [c for c in cs if not t.contains(c, idx)]
        if n is None:
            out = t.mk('whileloop', t.bind('lambda', idx, (t.num(1),), (t.mk('when', t.land(*mine), out),)))
        else:
            out = E.mkcollect(n, idx, out, t.land(*mine))
        cond = t.land(*rest)
    return t.mk('when', cond, out)


def calls(r, *names, dynamic=False):
    """call events whose (resolved) name is one of names, or ends with '.name' for names starting with a dot"""
    out = []
    for e in r.events:
        if e.kind != 'call':
            continue
        n = e.data.get('name')
        if any(n == x or (x.startswith('.') and n is not None and n.endswith(x)) for x in names):
            out.append(e)
    return out


def callterm(e):
    return close(e, e.data['value'])
