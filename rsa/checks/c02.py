"""C02: native kernels never leave their buffers."""
import time

from .. import bounds, witness
from .. import terms as t
from ..native import Native, N, B
from ..terms import num, ONE, ZERO, TRUE, FALSE

RULE = 'accesses inside their buffer'
STACK = 'scratch memory that depends on the input is not on the stack'
EXPLANATION = ('Every element and range the native functions read or write (loads, stores, memcpy, std::copy, fill, max_element) is an obligation: with the '
               'path condition and the ranges of the enclosing loops, 0 <= position and position + count <= number of elements of the array, '
               'output or scratch buffer. Buffers come from the sources: array_t shapes after unchecked<N>(), new T[n], std::vector(n). The '
               'functions exported to Python are followed from their arguments; transform, nth_element, snr2, downsample and ceilshift are '
               'decided once under a contract (rows and columns of the three blocks agree and their memory is large enough, start <= n <= end, '
               'every width below the number of bins, ...) that every call of them, the recursive ones included, has to establish. The '
               'inequalities are polynomials over loop indices, floors, minima, partial sums, array entries and loop variables; a goal-directed '
               'prover eliminates one atom after another with facts of suitable sign (guards passed, loop ranges, definitions of floor and min, '
               'inductive bounds of loop variables, partial sums of non-negative terms). What is not proved is violated only when small values '
               'for the free symbols of the terms satisfy everything known and break the inequality, and undecided otherwise. A contract that '
               'fails is given up and the function followed from its callers instead. Arrays of variable length on the stack are reported.')
MINIMUM = 60


class Contract:
    """what a function may assume of its arguments, and what every call of it has to establish"""
    def __init__(self, name, params):
        self.name, self.params = name, params


def transform_pre(a):
    R, C = a('input.rows'), a('input.cols')
    return dict(facts=[(t.sub(R, ONE), 'at least one row'), (t.sub(C, ONE), 'at least one column')],
                same=[('temp.rows', 'input.rows'), ('out.rows', 'input.rows'), ('temp.cols', 'input.cols'), ('out.cols', 'input.cols')],
                extents=[('input.data', t.mul(R, C)), ('temp.data', t.mul(R, C)), ('out.data', t.mul(R, C))], every=[])


def nth_pre(a):
    return dict(facts=[(a('start'), 'start >= 0'), (t.sub(a('n'), a('start')), 'start <= n'), (t.sub(a('end'), a('n')), 'n <= end')], same=[],
                extents=[('data', t.add(a('end'), ONE))], every=[])


def snr2_pre(a):
    R, C, W = a('block.rows'), a('block.cols'), a('num_widths')

    def widths(load):
        return [(t.sub(load, ONE), 'every width is positive'), (t.sub(t.sub(C, ONE), load), 'every width is below the number of bins')]
    return dict(facts=[(R, 'rows >= 0'), (t.sub(C, ONE), 'at least one bin'), (t.sub(W, ONE), 'at least one width')], same=[],
                extents=[('block.data', t.mul(R, C)), ('widths', W), ('out', t.mul(R, W))], every=[('widths', W, widths)])


def downsample_pre(a):
    n, f = a('size'), a('f')
    return dict(facts=[], same=[], extents=[('in', n), ('out', t.floor(t.div(n, f)))], every=[])


def ceilshift_pre(a):
    return dict(facts=[(t.sub(a('rows'), ONE), 'at least one row'), (t.sub(a('cols'), ONE), 'at least one column'),
                       (t.sub(a('pmax'), a('cols')), 'the largest period is not below the number of columns')], same=[], extents=[], every=[],
                result=lambda r: [(r, 'a natural number')])


CONTRACTS = {
    'ceilshift': (('rows', 'cols', 'pmax'), ceilshift_pre),
    'transform__3': (('input', 'temp', 'out'), transform_pre),
    'nth_element': (('data', 'start', 'end', 'n'), nth_pre),
    'snr2': (('block', 'widths', 'num_widths', 'stdnoise', 'out'), snr2_pre),
    'downsample': (('in', 'size', 'f', 'out'), downsample_pre),
}


class Check:
    def __init__(self, rep):
        self.s = Native(rep, '')
        self.rep = rep
        self.cuts, self.apps = {}, {}
        self.attempt, self.seconds = 0, 150
        for nm, (ps, pre) in CONTRACTS.items():
            q = N + '.' + nm
            if q in self.s.front.protos and len(self.s.params(q)) == len(ps):
                self.cuts[q] = (dict(zip(ps, self.s.params(q))), pre)
        self.natural()

    def natural(self):
        """functions whose result is a natural number by contract"""
        for q in list(self.cuts):
            if q == N + '.ceilshift':
                r = self.s.run(q)
                if r is None or not t.is_int(r.raw):
                    del self.cuts[q]
                    t.NAT_APPS.discard(q)
                else:
                    t.NAT_APPS.add(q)
                    self.apps[q] = r.raw

    def drop(self, q):
        del self.cuts[q]
        t.NAT_APPS.discard(q)

    def getter(self, q, flat):
        """argument by the contract's name for it"""
        names, pre = self.cuts[q]

        def get(x):
            head, _, tail = x.partition('.')
            return flat(names[head] + ('.' + tail if tail else ''))
        return get

    def function(self, q, own):
        """every access made while q runs, calls of other functions with a contract excepted"""
        s = self.s
        op = tuple(c for c in self.cuts if c != q)
        r = s.run(q, opaque=op)
        name = q.replace('riptide.', '', 1)
        if r is None:
            o = Obligation(None, 'accesses', None, False, str(s.last_error))
            o.fn = name
            return [o]
        ev = r.ev
        ren, facts, every, ext = {}, [], [], {}
        if own:
            names, pre = self.cuts[q]

            def flat(x):
                head, _, tail = x.partition('.')
                if not tail:
                    return t.mk('param', head)
                if tail == 'data':
                    o = [ev.refs[b]['origin'] for b in ev.buffers if ev.refs[b]['origin'] is not None and ev.refs[b]['origin'].op == 'attr'
                         and ev.refs[b]['origin'].a[0] is t.mk('param', head)]
                    if len(o) == 1:
                        return o[0]
                return t.mk('attr', t.mk('param', head), tail)
            get = self.getter(q, flat)
            c = c0 = pre(get)
            for a, b in c['same']:
                ren[get(a)] = get(b)
            facts = [(t.subst(g, ren), False) for g, _ in c['facts']]
            ext = {get(p): t.subst(n, ren) for p, n in c['extents']}
            for p, n, cond in c['every']:
                i = t.fresh_idx()
                every.append((t.subst(n, ren), i, t.land(*[t.nn(g) for g, _ in cond(t.mk('load', get(p), i))])))
        dims = {}
        for e in r.events:
            if e.kind == 'view' and e.data['ndim'] is not t.NONE:
                dims[e.data['base']] = int(e.data['ndim'].a[0])
        mutable = {e.data['base'] for e in r.events if e.kind == 'mutable'}

        def shape(arr, nd):
            es = [t.length(arr) if k == 0 else t.item(t.attr(arr, 'shape'), num(k)) for k in range(nd)]
            for x in es:
                t.INT_ATOMS.add(x)
                t.NAT_ATOMS.add(x)
            return es

        for arr, nd in dims.items():
            shape(arr, nd)

        def extent(root):
            if root.op == 'ref' and ev.refs[root]['kind'] == 'buf':
                i = ev.refs[root]
                o = i['origin']
                if o is None:
                    es = t.seq_elems(i['size']) if i.get('array') else [i['size']]
                    if es is None:
                        return None
                elif o in ext:
                    return ext[o]
                elif o in dims:
                    es = shape(o, dims[o])
                else:
                    return None
                n = ONE
                for x in es:
                    n = t.mul(n, x)
                return t.subst(n, ren)
            return None
        got = []        # facts that follow from checked positions: (guard, fact)
        out = {}
        spent = [0]

        def fail(e, what, why):
            out[(e.where, e.fn, what, why, e.guard)] = Obligation(e, what, None, False, why)

        for e in r.events:
            g = t.subst(e.guard, ren) if ren else e.guard
            loops = [(i, t.subst(n, ren) if n is not None and n is not t.NONE else None) for i, n in e.loops]
            lits = set(bounds.conj(g))
            reached = []
            for i, h, c in e.hits:
                # an iteration takes place when none before it has left the loop; what follows the exit, when this one has not either
                over = lits >= set(bounds.conj(t.lnot(c)))
                d = t.sub(h, i)
                reached.append((t.subst(t.sub(d, ONE) if over else d, ren), False))

            def goal(what, gs, extra=(), more=(), callee=None):
                """gs: [(term, strict)]"""
                gs = [(t.subst(x, ren) if ren else x, st) for x, st in gs]
                key = (e.where, e.fn, what, tuple(gs), g, tuple(extra))
                if key in out:
                    return
                fs = list(facts) + [f for gg, f in got if lits >= gg]
                o = out[key] = Obligation(e, what, callee, False, '')
                o.search = (g, tuple(extra), [f for f, s in fs] + [f for f, s in reached], list(every), loops + list(more))
                o.goals = gs
                if spent[0] > LIMIT[self.attempt]:
                    o.why = 'too long'
                    return
                p = None
                try:
                    p = bounds.Prover([], [], fs, limit=(6000, 2500, 2500)[self.attempt])
                    p.every = list(every)
                    p.settle()
                    p = bounds.Prover([g] + list(extra), loops + list(more), reached, parent=p)
                    o.ok = p.bad
                    for at_, (x, st) in enumerate(gs if not o.ok else []):
                        o.goals = gs[at_:]
                        if not p.prove(x, st):
                            o.why = t.show(x) + (' > 0' if st else ' >= 0')
                            break
                    else:
                        o.ok, o.goals = True, gs
                except bounds.Budget:
                    o.why = 'too long'
                o.steps = p.count[0] if p else 0
                spent[0] += o.steps

            def pointer(what, p, k, n, callee=None):
                """n elements from k on through a pointer"""
                if p.op == 'ite':
                    for c, q_ in ((p.a[0], p.a[1]), (t.lnot(p.a[0]), p.a[2])):
                        extra.append(c)
                        pointer(what, q_, k, n, callee)
                        extra.pop()
                    return
                root, off = t.ptr_split(p)
                if root.op == 'ite':
                    return pointer(what, t.ite(root.a[0], t.padd(root.a[1], off), t.padd(root.a[2], off)), k, n, callee)
                x = extent(root)
                at = t.add(off, k)
                if x is None:
                    fail(e, what, 'unknown extent of %s' % t.show(root))
                    return
                gs = [(at, False), (t.sub(t.sub(t.subst(x, ren), at), n), False)]
                if n is not ONE:
                    gs.append((n, False))
                goal(what, gs, extra, callee=callee)
            extra = []
            d = e.data
            if e.kind == 'data' and 'checked' in d and not e.loops and d['base'] not in mutable and d['base'].op == 'ref':
                es = t.seq_elems(ev.refs[d['base']]['size']) if ev.refs[d['base']]['kind'] == 'buf' else None
                ks = t.seq_elems(d['checked'])
                if es and ks and len(es) == len(ks):
                    for x, k in zip(es, ks):
                        got.append((frozenset(bounds.conj(g)), (t.sub(t.sub(x, ONE), k), False)))
            elif e.kind == 'load':
                pointer('element read', d['root'], d['off'], ONE)
            elif e.kind == 'store':
                pointer('element written', d['pointer'], d['off'], ONE)
            elif e.kind == 'range':
                pointer('range written' if d['write'] else 'range read', d['pointer'], ZERO, d['count'])
            elif e.kind == 'wildstore':
                fail(e, 'element written', 'through the unknown pointer %s' % t.show(d['pointer'])[:200])
            elif e.kind == 'call' and 'flat' in d and d['name'] not in self.cuts:
                fail(e, 'call of %s' % d['name'].rsplit('.', 1)[-1], 'what it touches is not known here')
            elif e.kind == 'call' and 'flat' in d:
                fl = d['flat']
                nm = d['name'].rsplit('.', 1)[-1]
                try:
                    get = self.getter(d['name'], lambda x: fl[x])
                    c = self.cuts[d['name']][1](get)
                    same = [(a, b, t.sub(get(a), get(b))) for a, b in c['same']]
                except KeyError as x:
                    fail(e, 'call of %s' % nm, 'no argument %s' % x)
                    continue
                for x, txt in c['facts']:
                    goal('call of %s: %s' % (nm, txt), [(x, False)], callee=d['name'])
                for a, b, x in same:
                    goal('call of %s: %s = %s' % (nm, a, b), [(x, False), (t.neg(x), False)], callee=d['name'])
                for p_, n in c['extents']:
                    pointer('call of %s: room behind %s' % (nm, p_), get(p_), ZERO, n, d['name'])
                for p_, n, cond in c['every']:
                    root, off = t.ptr_split(get(p_))
                    o = ev.refs[root]['origin'] if root.op == 'ref' else None
                    i = t.fresh_idx()
                    if o is None:
                        fail(e, 'call of %s' % nm, 'array %s not known' % p_)
                        continue
                    for x, txt in cond(t.mk('load', o, t.add(off, i))):
                        goal('call of %s: %s' % (nm, txt), [(x, False)], more=[(i, n)], callee=d['name'])
        if own and 'result' in c0:
            for x, txt in c0['result'](r.raw):
                o = out[(q, txt)] = Obligation(None, 'result is ' + txt, None, False, t.show(x))
                o.goals, o.search = [(x, False)], (TRUE, (), [f for f, s in facts], [], [])
                try:
                    o.ok = bounds.Prover([], [], facts).prove(x, False)
                except bounds.Budget:
                    pass
        return list(out.values())

    def witness(self, o):
        if o.goals is None or o.looked:
            return o.found
        o.looked = True
        g, extra, facts, every, loops = o.search
        for x, st in o.goals:
            if self.seconds <= 0:
                break
            t0 = time.time()
            w = witness.search(x, st, bounds.conj(g) + list(extra), facts, every, loops, self.apps, min(12, self.seconds))
            self.seconds -= time.time() - t0
            if w:
                o.found = '%s is %s for %s' % (t.show(x)[:300], 'negative or zero' if st else 'negative', w)
                break
        return o.found


class Obligation:
    def __init__(self, e, what, callee, ok, why):
        self.where, self.fn = (e.where, e.fn) if e else ('', '')
        self.what, self.callee, self.ok, self.why = what, callee, ok, why
        self.goals = self.search = None
        self.looked, self.found, self.steps = False, None, 0


LIMIT = (30000, 5000, 5000)     # steps per function, with the contracts and after some have been given up


def run(rep):
    c = Check(rep)
    s = c.s
    for fn, var, at in s.front.vlas:
        rep.violated(STACK, '%s: %s' % (fn, var), at, 'array of variable length on the stack')
    rep.holds(STACK, '%d native functions' % len(s.front.fns), 'riptide/cpp') if not s.front.vlas else None
    first = {}
    own, use = {}, {}
    for attempt in range(3):
        c.attempt = attempt
        stale = (lambda os: True) if attempt == 0 else (lambda os: any(o.callee in gone for o in os))
        own = {q: c.function(q, True) if attempt == 0 or stale(own[q]) else own[q] for q in sorted(c.cuts)}
        use = {q: c.function(q, False) if attempt == 0 or stale(use[q]) else use[q] for q in sorted({q for q, names, d in s.front.exports.values()})}
        bad = {q for q in own if any(not o.ok for o in own[q])} | {o.callee for os in list(own.values()) + list(use.values()) for o in os
                                                                    if not o.ok and o.callee}
        for q in bad:
            first.setdefault(q, (own[q], [o for os in list(own.values()) + list(use.values()) for o in os if o.callee == q], s.at(q)))
        gone = [q for q in bad if not any(o.callee == q for o in own[q])]
        if not gone:
            break
        # what a function needs may have changed together with its callers: look at it from where it is called
        for q in gone:
            c.drop(q)
    if any(not o.ok for os in list(own.values()) + list(use.values()) for o in os):
        # with the functions taken apart not everything could be settled: one side of an agreement that is broken alone
        for q, (mine, calls, at) in sorted(first.items()):
            if q in own:
                continue
            a = [o for o in mine if not o.ok]
            b = [o for o in calls if not o.ok]
            if a and b:
                continue
            for o in a + b:
                w = c.witness(o)
                if w:
                    rep.violated(RULE, '%s: %s' % (short(o.fn or q), o.what), o.where or at, w)
                    break
    for q, os in list(own.items()) + list(use.items()):
        for o in os:
            report(rep, c, s, q, o, own, use)
    s.hidden()


def report(rep, c, s, q, o, own, use):
    subject = '%s: %s' % (short(o.fn or q), o.what)
    where = o.where or s.at(q)
    if o.ok:
        rep.holds(RULE, subject, where, '= ' + '; '.join(t.show(x)[:200] + (' > 0' if st else ' >= 0') for x, st in o.goals or ()))
        return
    both = False
    f = o.callee if o.callee in own else q if q in own else None
    if f:
        # calls from elsewhere: a function that calls itself may have another contract, but then with its callers
        calls = [x for k, os in list(own.items()) + list(use.items()) for x in os if x.callee == f and k != f]
        both = any(not x.ok for x in own[f]) and any(not x.ok for x in calls)
    w = None if both or sum(i['verdict'] == 'violated' for i in rep.items) > 3 else c.witness(o)
    if w:
        rep.violated(RULE, subject, where, w)
    else:
        rep.undecided(RULE, subject, where, o.why[:400])


def short(q):
    return str(q).rsplit('.', 1)[-1]
