"""Comparison of the native functions with reference definitions."""
import itertools

from . import cxx
from . import cxxfront
from . import pyfront
from . import terms as t
from .spec import SPEC, Suite, decide

N, B = cxxfront.NATIVE, cxxfront.BINDING


class Native(Suite):
    def __init__(self, rep, src=''):
        prog = pyfront.Program()
        self.front = cxxfront.attach(prog)
        prog.protos = self.front.protos
        super().__init__(rep, src, prog)
        self.proved = set()

    def pair(self, *args, **kw):
        forget()
        return super().pair(*args, **kw)

    def params(self, qual):
        names, n = self.argnames(qual)
        return names

    def kernel(self, qual, specs, parts=('ret', 'raises', 'memory'), rule='reference', subject=None, given=None, opaque=((),), **kw):
        """compare return value, refusals and the final content of every buffer a pointer argument leads to; each set of functions in
        `opaque` is one way to cut the call graph, and one that succeeds is enough"""
        subject = subject or qual.replace('riptide.', '', 1)
        if isinstance(specs, str):
            specs = [specs]
        if opaque and isinstance(opaque[0], str):
            opaque = (opaque,)
        runs = []
        for op in opaque:
            got = self.compare(qual, specs, parts, subject, given, op, **kw)
            runs.append(got)
            if all(v == 'holds' for v, *_ in got):
                break
        keys, hits = [], []
        for got in runs:
            for v, sub, where, det in got:
                if sub not in keys:
                    keys.append(sub)
        for sub in keys:
            xs = [x for got in runs for x in got if x[1] == sub]
            hit = next((x for x in xs if x[0] == 'holds'), None) or next((x for x in xs if x[0] == 'undecided'), None) or xs[0]
            if hit[0] == 'violated' and len(xs) < len(runs):
                hit = ('undecided',) + hit[1:]
            if hit[0] == 'undecided':
                # cut only at functions that were themselves found to be what the reference says: the difference is in this function
                hit = next((x for op, got in zip(opaque, runs) if op and set(op) <= self.proved for x in got if x[1] == sub and x[0] == 'violated'), hit)
            hits.append(hit[0])
            getattr(self.rep, hit[0])(rule, sub, hit[2], *([hit[3]] if hit[0] != 'holds' else []))
        if hits and set(hits) == {'holds'}:
            self.proved.add(qual)
        return runs

    def compare(self, qual, specs, parts, subject, given, opaque, **kw):
        act, sp = self.twins(qual, specs, opaque, **kw)
        where = self.at(qual)
        if act is None:
            return [('undecided', subject, where, self.last_error)]
        out = []

        def judge(sub, a, refs):
            v, det = decide(a, refs, given)
            if v == 'violated' and shape(a) not in [shape(r) for r in refs]:
                v, det = 'undecided', 'written in another way; ' + det
            if v == 'violated' and any(decide(b, refs, given)[0] == 'holds' for b in orders(a)):
                v, det = 'undecided', 'the same stores in another order; ' + det
            out.append((v, sub, where, det))
        if 'ret' in parts:
            judge(subject + ': result', self.shown(act), [self.shown(s) for s in sp])
        if 'raises' in parts:
            judge(subject + ': refusals', act.raise_cond(), [s.raise_cond() for s in sp])
        if 'memory' in parts:
            ma, ms = memory(act), [memory(s) for s in sp]
            for k in sorted(set(ma) | set().union(*ms), key=lambda x: t.show(x)):
                judge('%s: what %s points to' % (subject, t.show(k)), ma.get(k, t.EMPTY), [m.get(k, t.EMPTY) for m in ms])
            wild = [e for e in act.events if e.kind == 'wildstore']
            if wild:
                out.append(('undecided', subject + ': stores', where, 'through %s' % t.show(wild[0].data['pointer'])[:200]))
        return out

    def twins(self, qual, specs, opaque=(), **kw):
        forget()
        if self.prog.resolve(qual) is None:
            self.last_error = self.front.skipped.get(qual) or '%s not found in the sources' % qual
            act = None
            names = None
        else:
            names = self.params(qual)
            snames = self.params(SPEC + '.' + specs[0])
            skip = 1 if names[:1] == ['self'] and snames[:1] == ['self'] else 0
            flags = dict(kw.pop('flags', {}) or {})
            flags['rename'] = dict(zip(names[skip:], snames[skip:]))
            if len(names) != len(snames):
                self.last_error = 'other parameters: %s' % names
                return None, []
            act = self.run(qual, opaque=opaque, flags=flags, **kw)
        if act is None:
            return None, []
        out = []
        for s in specs:
            r = self.run(SPEC + '.' + s, opaque=tuple(opaque) + (qual,), flags=flags, **kw)
            if r is None:
                raise RuntimeError('reference %s cannot be analysed: %s' % (s, self.last_error))
            out.append(r)
        return act, out

    def driver(self, a, b, rule, subject, **kw):
        """two functions of the reference module: one calls the code, the other says what it must give"""
        bs = [b] if isinstance(b, str) else b
        where = self.at(kw.pop('anchor')) if 'anchor' in kw else 'riptide/cpp'
        ra = self.run(SPEC + '.' + a, **kw)
        if ra is None:
            self.rep.undecided(rule, subject, where, self.last_error)
            return
        rs = [self.run(SPEC + '.' + x, **kw) for x in bs]
        rc = ra.raise_cond()
        self.judge(rule, subject, self.shown(ra), [self.shown(r) for r in rs], where, given=t.lnot(rc) if rc is not t.FALSE and rc is not t.TRUE else None)

    def hidden(self):
        """functions of the native sources outside the translated language"""
        for q, why in sorted(self.front.skipped.items()):
            if not q.endswith('pybind11_exec_libcpp'):
                self.rep.undecided('native sources translated', q, self.at(q), why)

    def at(self, qual):
        r = self.prog.resolve(qual)
        if r is None:
            n = self.front.fns.get(qual)
            return '%s:%s' % (n['_at'] if n else ('riptide/cpp', 0))
        n = r[2][1] if r[0] == 'method' else r[2]
        return '%s:%d' % (getattr(n, '_file', r[1].path), n.lineno)

    def shown(self, r, given=None):
        rc = r.raise_cond()
        v = show_value(r, r.raw)
        return t.assume(v, t.lnot(rc)) if rc is not t.FALSE else v


def forget():
    """names of parameters of functions analysed before say nothing about the next ones"""
    for s in (t.INT_ATOMS, t.NAT_ATOMS, t.NAT_PTRS):
        for x in [x for x in s if x.op == 'param' or x.op == 'attr']:
            s.discard(x)


def show_value(r, v):
    """a returned value; arrays are shown with what was written to them"""
    ev, st = r.ev, r.state

    def go(x):
        if x.op == 'ref' and ev.refs[x]['kind'] == 'buf':
            i = ev.refs[x]
            return t.mk('call', 'array', (contents_of(ev, i['size'], st), i['dtype'], cxx.log(ev, x, st)), ())
        if x.op == 'ref' and ev.refs[x]['kind'] == 'inst':
            fields = {f: go(y) for (l, f), y in st.heap.items() if l is x}
            return t.mk('rec', ev.refs[x]['cls'], tuple(sorted(fields.items())))
        if x.op == 'ref':
            c = ev.content(x, st)
            return go(c) if c is not None else x
        if x.op == 'padd':
            return cxx.content(ev, x, st)
        if ev.has_ref(x):
            return t.map_children(x, go)
        return x
    return go(v)


def contents_of(ev, x, st):
    return x if not isinstance(x, t.T) else cxx.contents(ev, x, st)


def shape(x):
    """the loops and branches a log of stores is made of"""
    if x.op == 'seq' and x.a[0] and all(k in ('e', 's') for k, _ in x.a[0]):
        return ('seq',) + tuple('st' if k == 'e' and y.op == 'seq' else 'fill' if k == 'e' else shape(y) for k, y in x.a[0])
    if x.op == 'flat':
        return ('flat', shape(x.a[0]))
    if x.op == 'collect':
        i, outer, inner = t.open_node(x)
        return ('collect', shape(inner[0]), inner[1] is t.TRUE)
    if x.op == 'ite' and (t.is_seqlike(x.a[1]) or t.is_seqlike(x.a[2])):
        return ('ite', shape(x.a[1]), shape(x.a[2]))
    if x.op == 'call' and x.a[0] == 'array':
        return ('array', shape(x.a[1][2]))
    if x.op == 'gloop':
        return ('gloop',)
    return '.'


def orders(x):
    """the same groups of stores made in every other order"""
    if x.op == 'seq' and 2 <= len(x.a[0]) <= 4:
        for p in itertools.permutations(x.a[0]):
            if p != x.a[0]:
                yield t.mk('seq', p)


def canon(x):
    """loops that run downwards are turned round; a first or last element peeled off a loop is put back"""
    def turn(y):
        if y.op == 'collect':
            i, outer, inner = t.open_node(y)
            n, (b, c) = outer[0], inner
            es = t.seq_elems(b)
            if es and len(es) == 2 and c is t.TRUE:
                d = t.sub(t.subst(es[0], {i: t.add(i, t.ONE)}), es[0])
                if d is t.num(-1):
                    j = t.sub(t.sub(n, t.ONE), i)
                    return t.collect(n, i, t.subst(b, {i: j}), c)
        return None
    x = t.replace(x, turn)
    return x


def memory(r):
    """{parameter: stores} at the end of a function"""
    rc = r.raise_cond()
    out = {}
    for b in r.ev.buffers:
        o = r.ev.refs[b]['origin']
        if o is None:
            continue
        c = cxx.log(r.ev, b, r.state)
        if c is not t.EMPTY:
            out[o] = canon(t.assume(c, t.lnot(rc)) if rc is not t.FALSE else c)
    return out
