"""C27: successive runs of a pipeline object do not mix results."""
from .. import alias, effects
from .. import terms as t
from ..spec import Suite
from . import pipe

EXPLANATION = (
    'Definite-assignment analysis of the pipeline object over one run. Each stage is reduced to a normal form from an arbitrary state '
    'of the object; the stores of Pipeline.process and the stages are then followed in order, keeping the set of attributes whose '
    'value is determined by the files of this run and the configuration alone. A stage may only read such attributes, on every path '
    '(also the early returns taken when nothing was found), and every result attribute must be one of them at the end. Objects that '
    'outlive a run (the configuration) must not be stored into. All functions of the package are checked for writes to module-level '
    'and class-level objects, to default arguments, and for caches of what was read from files.')
MINIMUM = 60

ME = t.mk('param', 'self')
RESULTS = ('peaks', 'clusters', 'clusters_filtered', 'candidates')


def reads(x, out, bare):
    """attributes of self occurring in a term; bare: methods of the pipeline that self is passed to"""
    seen = set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == 'attr' and y.a[0] is ME:
            out.add(y.a[1])
            return
        if y is ME:
            bare.add('?')
            return
        if y.op == 'app' and any(v is ME for k, v in y.a[1]):
            bare.add(y.a[0])
            for k, v in y.a[1]:
                if v is not ME:
                    go(v)
            return
        if y.op in t.BINDERS:
            i, outer, inner = t.open_node(y)
            for z in tuple(outer) + tuple(inner):
                if isinstance(z, t.T):
                    go(z)
            return
        for z in t._walk_children(y.a):
            go(z)
    go(x)


class Object:
    def __init__(self, s, g):
        self.s, self.g = s, g
        self.cache = {}

    def method_reads(self, q):
        """attributes of self that a method kept symbolic reads, through the methods it calls"""
        if q in self.cache:
            return self.cache[q]
        import ast
        out = set()
        self.cache[q] = out
        f = self.g.fns.get(q)
        if f is None or not f.node.args.args:
            return out
        me = f.node.args.args[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                m = self.g.fns.get(f.cls + '.' + n.attr) if f.cls else None
                if m is not None:
                    out |= self.method_reads(f.cls + '.' + n.attr)
                else:
                    out.add(n.attr)
        return out

    def deps(self, *xs):
        out, bare = set(), set()
        for x in xs:
            if isinstance(x, t.T):
                reads(x, out, bare)
        for q in bare:
            if q == '?':
                continue
            out |= self.method_reads(q)
        return out


def run(rep):
    s = Suite(rep, '')
    g = effects.Graph(s.prog)
    ob = Object(s, g)
    q = pipe.PIPE + '.process'
    where = s.where(q)
    names = {pipe.PIPE + '.' + n: n for n in pipe.STAGES}
    r = s.run(q, opaque=tuple(names), attr_types=pipe.ATTR_TYPES)
    rule = 'what a run reads and leaves is determined by its files and the configuration'
    if r is None:
        rep.undecided(rule, 'Pipeline.process', where, s.last_error)
        return
    calls = [e for e in r.events if e.kind == 'call' and e.data.get('name') in names]
    if not calls:
        rep.undecided(rule, 'Pipeline.process', where, 'no stage call found')
        return
    stages = {}
    stored = set()
    for e in r.events:
        if e.kind == 'setattr' and e.data['base'] is ME:
            stored.add(e.data['name'])
    for n in pipe.STAGES:
        kw = {}
        if n == 'prepare':
            kw = dict(opaque=pipe.OPAQUE + (pipe.DMI, pipe.WP, pipe.PIPE + '.wmin'), ret_types={pipe.DMI: pipe.DMI, pipe.WP: pipe.WP})
        if pipe.PIPE + '.' + n not in g.fns:
            continue
        x = pipe.stage(s, n, **kw)
        stages[n] = x
        if x is not None:
            stored |= {e.data['name'] for e in x.events if e.kind == 'setattr' and e.data['base'] is ME}
            stored |= {y.a[1] for y, k in x.state.heap if k == '$c' and y.op == 'attr' and y.a[0] is ME}
    own = set()         # attributes of this run

    def fresh(d, where, subj, what):
        bad = sorted(a for a in d if a in stored and a not in own)
        if bad:
            rep.violated(rule, subj, where, '%s depends on what an earlier run left in self.%s' % (what, ', self.'.join(bad)))
        else:
            rep.holds(rule, subj, where)
        return not bad

    for e in r.events:
        if e.kind == 'setattr' and e.data['base'] is ME:
            a = e.data['name']
            d = ob.deps(r.ev.deref(e.data['value'], r.state) if isinstance(e.data.get('value'), t.T) else t.NONE, e.guard)
            ok = all(x not in stored or x in own for x in d) and (e.guard is t.TRUE or a in own) and not e.loops
            (own.add if ok else own.discard)(a)
            continue
        if e.kind != 'call' or e.data.get('name') not in names:
            continue
        n = names[e.data['name']]
        x = stages.get(n)
        subj = 'Pipeline.%s' % n
        w = s.where(e.data['name'])
        if x is None:
            rep.undecided(rule, subj, w, s.last_error)
            # its stores are unknown: no claim about what follows
            own |= stored
            continue
        # reads of the stage, by what it does with them
        touched = {v.data['name'] for v in x.events if v.kind == 'setattr' and v.data['base'] is ME}
        touched |= {y.a[1] for y, k in x.state.heap if k == '$c' and y.op == 'attr' and y.a[0] is ME}
        d = ob.deps(x.raise_cond())
        for v in x.events:
            if v.kind in ('call', 'yield', 'raise'):
                d |= ob.deps(v.guard, *[x.ev.deref(z, x.state) for z in list(v.data.get('args') or ()) + list((v.data.get('bound') or {}).values())
                                        if isinstance(z, t.T) and z is not ME])
        fresh(d, w, subj + ': everything it reads', 'the stage')
        after = set(own)
        for a in sorted(touched):
            v = pipe.final(x, a)
            c = x.state.heap.get((t.attr(ME, a), '$c'))
            d = ob.deps(v, *([x.ev.deref(c, x.state)] if c is not None and v is t.attr(ME, a) else []))
            good = all(z not in stored or z in own for z in d) and e.guard is t.TRUE
            (after.add if good else after.discard)(a)
            if a in RESULTS or a in ('dmiter', 'worker_pool'):
                fresh(d, w, '%s: self.%s' % (subj, a), 'the value of self.%s' % a)
        own = after
        # objects that outlive the run
        rule2 = 'objects that outlive a run are not modified by it'
        bad = []
        for ev, what, kind, cond, p in alias.writes(x):
            z = p
            chain = []
            while z.op != 'param' and z.a and isinstance(z.a[0], t.T):
                chain.append(z)
                z = z.a[0]
            if z is not ME or not chain or chain[-1].op != 'attr':
                continue
            a = chain[-1].a[1]
            if a not in stored:
                bad.append((ev.where, '%s on %s' % (what, t.show(p)[:100])))
        if bad:
            rep.violated(rule2, subj, bad[0][0], bad[0][1])
        else:
            rep.holds(rule2, subj, w)
    for a in RESULTS:
        if a in stored:
            rep.check(a in own, rule, 'self.%s after a run' % a, where, 'may hold what an earlier run left')
        else:
            rep.undecided(rule, 'self.%s after a run' % a, where, 'never stored')

    rule = 'no state outside the pipeline object'
    for qq, f in sorted(g.fns.items()):
        if '.tests.' in qq or qq.startswith('riptide._version'):
            continue
        w = g.shared_writes(f)
        m = g.memo(f)
        files = m and any(g.reads_files(g.fns[k]) for k in g.reachable([qq]) if k in g.fns)
        rep.check(not w and not files, rule, qq.replace('riptide.', '', 1), f.where, w[0][0] if w else 'caches what it read from files')
