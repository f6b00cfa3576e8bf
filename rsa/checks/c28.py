"""C28: errors are never silently swallowed."""
import ast
import glob
import os
import re

from .. import effects, pyfront
from ..spec import Suite

EXPLANATION = (
    'Census of everything in the package that can absorb an exception: every handler of every try statement, jumps out of finally blocks, '
    'contextlib.suppress, context managers that swallow, asynchronous pool and thread results, exits with status 0, lossy decoding, and '
    'catch clauses of the native sources. For each handler the ways control can leave it are computed; a handler that can be left '
    'otherwise than by raising is accepted only if what it protects, followed through the call graph, is one of the three documented cases '
    '(the construction of one candidate with its traceback logged, the band parameters of the headers, a pair of the PRESTO on/off list). '
    'Every function is one obligation, so code added later is covered.')
MINIMUM = 60

P = 'riptide.'
BUILD = P + 'candidate.Candidate.from_pipeline_output'
BAND = (P + 'pipeline.dmiter.infer_band_params', P + 'pipeline.dmiter.get_band_params')
PAIR = P + 'reading.presto.parse_int_pair'
HEAVY = ('deredden', 'normalise', 'process_fname', 'process_fname_list', 'process_file')
LOOKUP = {'KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'LookupError', 'ImportError', 'ModuleNotFoundError'}
ASYNC = {'map_async', 'apply_async', 'starmap_async', 'submit', 'imap', 'imap_unordered'}
EXITS = {'sys.exit', 'exit', 'quit', 'os._exit', 'os.abort', 'SystemExit'}


def own(body):
    """nodes of a block, not those of nested functions and classes"""
    out, stack = [], list(body)
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


class Census:
    def __init__(self, g, rep):
        self.g, self.rep = g, rep

    # -------------------------------------------------------- ways out of a block
    def exits_ok(self, f, n):
        """an exit call that reports failure"""
        a = n.args[0] if n.args else None
        return a is not None and not (isinstance(a, ast.Constant) and a.value in (0, None, False))

    def leaves(self, f, body):
        """set of ways to leave a block: fall raise return break continue exit0"""
        out = {'fall'}
        for st in body:
            if 'fall' not in out:
                break
            out.discard('fall')
            out |= self.leave(f, st)
        return out

    def leave(self, f, st):
        if isinstance(st, ast.Raise):
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            if isinstance(e, ast.Name) and e.id == 'SystemExit':
                ok = isinstance(st.exc, ast.Call) and self.exits_ok(f, st.exc)
                return {'raise'} if ok else {'exit0'}
            return {'raise'}
        if isinstance(st, ast.Return):
            return {'return'}
        if isinstance(st, ast.Break):
            return {'break'}
        if isinstance(st, ast.Continue):
            return {'continue'}
        if isinstance(st, ast.If):
            return self.leaves(f, st.body) | self.leaves(f, st.orelse)
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            b = self.leaves(f, st.body)
            out = {'fall'} | (b - {'break', 'continue'})
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and 'break' not in b:
                out.discard('fall')
            return out
        if isinstance(st, (ast.With, ast.AsyncWith)):
            return self.leaves(f, st.body)
        if isinstance(st, ast.Try):
            out = self.leaves(f, st.body + st.orelse)
            for h in st.handlers:
                out |= self.leaves(f, h.body)
            fin = self.leaves(f, st.finalbody)
            if 'fall' not in fin:
                return fin
            return out | (fin - {'fall'})
        if isinstance(st, ast.Assert) and isinstance(st.test, ast.Constant) and not st.test.value:
            return {'raise'}
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            c = st.value
            d = self.g.dotted(f, c.func) if f is not None else None
            if d in EXITS:
                return {'raise'} if d not in ('os._exit',) and self.exits_ok(f, c) else {'exit0'}
            if d == 'os.kill':
                return {'fall'}
            # a helper of the package that always raises
            h = self.g.fns.get(d) if d else None
            if h is None and isinstance(c.func, ast.Attribute) and f is not None and f.cls:
                h = self.g.fns.get(f.cls + '.' + c.func.attr)
            if h is not None and h is not f and self.leaves(h, h.node.body) == {'raise'}:
                return {'raise'}
        return {'fall'}

    # -------------------------------------------------------- what a try protects
    def protected(self, f, body):
        refs = set()
        for n in own(body):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                self.g._ref(f, n, refs)
        return refs, self.g.reachable(refs)

    def io(self, f, body):
        for n in own(body):
            if isinstance(n, ast.Call):
                d = self.g.dotted(f, n.func)
                if d in ('open', 'io.open', 'np.fromfile', 'np.load', 'np.loadtxt', 'os.stat', 'np.memmap'):
                    return d
                if d is None and isinstance(n.func, ast.Attribute) and n.func.attr in ('read', 'readline', 'readlines', 'write', 'loader', 'savefig', 'to_csv'):
                    return '.' + n.func.attr
        return None

    def logs_traceback(self, f, h):
        for n in own(h.body):
            if not isinstance(n, ast.Call):
                continue
            a = n.func.attr if isinstance(n.func, ast.Attribute) else None
            d = self.g.dotted(f, n.func) or ''
            if a == 'exception' or any(k.arg == 'exc_info' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords):
                return True
            if d in ('traceback.print_exc', 'traceback.print_exception'):
                return True
            if a in ('error', 'warning', 'critical', 'warn', 'info', 'debug', 'log'):
                for m in ast.walk(n):
                    if isinstance(m, ast.Call) and (self.g.dotted(f, m.func) or '').startswith('traceback.format'):
                        return True
                names = {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
                for s in own(h.body):
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in s.targets):
                        if any(isinstance(m, ast.Call) and (self.g.dotted(f, m.func) or '').startswith('traceback.format') for m in ast.walk(s.value)):
                            return True
            h2 = self.g.fns.get(d)
            if h2 is None and isinstance(n.func, ast.Attribute) and f.cls:
                h2 = self.g.fns.get(f.cls + '.' + n.func.attr)
            if h2 is not None and h2 is not f:
                fake = ast.ExceptHandler(type=None, name=None, body=h2.node.body)
                if self.logs_traceback(h2, fake):
                    return True
        return False

    def types(self, h):
        if h.type is None:
            return None
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else '?' for e in es}

    def judge(self, f, tr, h, loops, later):
        """verdict on one handler: (True/False/None, detail)"""
        out = self.leaves(f, h.body)
        if out == {'raise'}:
            return True, ''
        refs, reach = self.protected(f, tr.body)
        io = self.io(f, tr.body)
        files = [q for q in reach if self.g.reads_files(self.g.fns[q]) or self.g.file_writes(self.g.fns[q])]
        heavy = [q for q in reach if q.rsplit('.', 1)[1] in HEAVY and q in refs]
        what = 'the handler at line %d can be left by %s without raising' % (h.lineno, ', '.join(sorted(out - {'raise'})))
        if 'exit0' in out:
            return False, what + ': the process reports success'
        # one candidate
        if BUILD in reach:
            if io or heavy:
                return False, what + ', and what it protects is more than building one candidate (%s)' % (io or heavy[0])
            if BUILD in refs or any(q in refs and self.one(q) for q in refs):
                if any(isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and
                       BUILD in self.protected(f, [n])[1] for n in own(tr.body)):
                    return False, what + ', and it protects a loop over candidates: one failure discards the others'
                if 'break' in out or ('return' in out and loops):
                    return False, what + ': the remaining candidates are not built'
                if not self.logs_traceback(f, h):
                    return False, what + ' and does not log the traceback'
                return True, ''
            return False, what + ', and what it protects is more than building one candidate'
        # band parameters
        if any(b in reach for b in BAND):
            if files or io:
                return False, what + ', and it protects reading files (%s)' % (files or [io])[0]
            if 'raise' not in out:
                return False, what + ' even when the band parameters were not all given'
            return True, ''
        # on/off pairs
        if PAIR in reach:
            rest = [q for q in reach if not q.startswith(P + 'reading.presto.parse')]
            if io or rest:
                return False, what + ', and it protects more than a pair of the on/off list (%s)' % (io or rest[0])
            names = {n.id for n in own(tr.body) if isinstance(n, ast.Name)} & {'p'}
            if names:
                return False, what + ', and it protects other header values'
            return True, ''
        ty = self.types(h)
        if ty is not None and ty <= LOOKUP and not io and not files and not reach:
            return None, what + ' (a lookup with a default)'
        if h.name and later and any(isinstance(n, ast.Name) and n.id == h.name and isinstance(n.ctx, ast.Load) for n in own(h.body)) \
                and not ({'return', 'break'} & out) and self.stored(h):
            return None, what + ' but the error is kept and something is raised later'
        return False, what

    def stored(self, h):
        for n in own(h.body):
            if isinstance(n, ast.Assign) and any(isinstance(m, ast.Name) and m.id == h.name for m in ast.walk(n.value)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add') \
                    and any(isinstance(m, ast.Name) and m.id == h.name for a in n.args for m in ast.walk(a)):
                return True
        return False

    def one(self, q):
        """a function that builds one candidate"""
        fn = self.g.fns.get(q)
        if fn is None or BUILD not in self.g.reachable([q]):
            return False
        if BUILD not in self.g.edges(q) or any(isinstance(n, (ast.For, ast.While)) and BUILD in self.protected(fn, [n])[1] for n in own(fn.node.body)):
            return False
        return True

    # -------------------------------------------------------- other ways to lose an error
    def others(self, f, body):
        g = self.g
        ns = own(body)
        parents = {c: n for n in ns for c in ast.iter_child_nodes(n)}
        src = [n for n in ns if isinstance(n, ast.Call)]
        executors = set()
        for n in ns:
            pairs = [(t, n.value) for t in n.targets] if isinstance(n, ast.Assign) else \
                [(i.optional_vars, i.context_expr) for i in n.items if i.optional_vars is not None] if isinstance(n, ast.With) else []
            for t, v in pairs:
                if isinstance(t, ast.Name) and isinstance(v, ast.Call) and 'Executor' in ast.unparse(v.func):
                    executors.add(t.id)
        for c in src:
            d = (g.dotted(f, c.func) if f is not None else None) or ''
            a = c.func.attr if isinstance(c.func, ast.Attribute) else None
            if d == 'contextlib.suppress' or d.endswith('.suppress'):
                ts = {getattr(x, 'id', '?') for x in c.args}
                if ts <= LOOKUP:
                    yield None, c, 'contextlib.suppress of a lookup error'
                else:
                    yield False, c, 'contextlib.suppress(%s) absorbs errors' % ', '.join(ast.unparse(x) for x in c.args)
            if d == 'os._exit':
                yield False, c, 'os._exit ends the process without reporting the error'
            for k in c.keywords:
                if k.arg == 'errors' and isinstance(k.value, ast.Constant) and k.value.value in ('ignore', 'replace'):
                    yield False, c, 'decoding errors are ignored'
                if k.arg == 'return_exceptions' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    yield False, c, 'exceptions are returned as values'
                if k.arg == 'on_bad_lines' and isinstance(k.value, ast.Constant) and k.value.value != 'error':
                    yield False, c, 'bad lines are skipped'
            if a in ASYNC or (a == 'map' and isinstance(c.func.value, ast.Name) and c.func.value.id in executors):
                yield self.consumed(ns, parents, c, a)
            if d.split('.')[-1] in ('Process', 'Thread') and d.split('.')[0] in ('multiprocessing', 'threading'):
                seen = any(isinstance(n, ast.Attribute) and n.attr == 'exitcode' for n in ns)
                yield (None if seen else False), c, 'the failure of a %s is not looked at' % d

    def consumed(self, ns, parents, c, a):
        p = parents.get(c)
        if isinstance(p, ast.Expr):
            return False, c, 'the result of %s is dropped: errors raised there are lost' % a
        if isinstance(p, ast.Attribute):
            if p.attr in ('get', 'result'):
                return True, c, ''
            return False, c, 'the result of %s is not fetched: errors raised there are lost' % a
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            nm = p.targets[0].id
            uses = [n for n in ns if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
            if not uses:
                return False, c, 'the result of %s is never used: errors raised there are lost' % a
            if all(isinstance(parents.get(u), ast.Attribute) and parents[u].attr in ('wait', 'ready', 'done', 'successful') for u in uses):
                return False, c, 'the result of %s is waited for but not fetched: errors raised there are lost' % a
            return True, c, ''
        return True, c, ''

    def skips(self, f, body):
        """existence tests that skip a file"""
        for n in own(body):
            if not isinstance(n, (ast.If, ast.IfExp, ast.comprehension)):
                continue
            tests = n.ifs if isinstance(n, ast.comprehension) else [n.test]
            for tst in tests:
                hit = [c for c in ast.walk(tst) if isinstance(c, ast.Call) and (self.g.dotted(f, c.func) or '') in
                       ('os.path.exists', 'os.path.isfile', 'os.access', 'os.path.getsize', 'os.stat')]
                if not hit:
                    continue
                if isinstance(n, ast.comprehension):
                    yield hit[0], 'files that cannot be found are left out'
                elif isinstance(n, ast.If):
                    outs = self.leaves(f, n.body), self.leaves(f, n.orelse)
                    if any(o & {'continue', 'return', 'break'} and 'raise' not in o for o in outs) and not any('raise' in o for o in outs):
                        yield hit[0], 'a file that cannot be found is skipped without an error'


def scan(c, f, body, subject, where, rep):
    rule = 'no error is absorbed'
    bad, unsure, good = [], [], 0
    stack = [(st, False) for st in body]
    tries = []
    while stack:
        n, loops = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Try):
            tries.append((n, loops))
        inner = loops or isinstance(n, (ast.For, ast.While))
        stack.extend((k, inner) for k in ast.iter_child_nodes(n))
    for n, loops in tries:
        later = any(isinstance(m, ast.Raise) and m.lineno > n.end_lineno for m in own(body))
        for h in n.handlers:
            ok, why = c.judge(f, n, h, loops, later)
            (bad if ok is False else unsure if ok is None else []).append((h, why))
        fin = c.leaves(f, n.finalbody)
        if fin & {'return', 'break', 'continue'}:
            bad.append((n, 'the finally block at line %d discards the error (%s)' % (n.finalbody[0].lineno, ', '.join(sorted(fin - {"fall"})))))
    if f is not None:
        for ok, n, why in c.others(f, body):
            (bad if ok is False else unsure if ok is None else []).append((n, why))
        for n, why in c.skips(f, body):
            bad.append((n, why))
        if f.node.name == '__exit__':
            for n in own(body):
                if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and not n.value.value):
                    bad.append((n, 'a context manager that may swallow the error'))
    path = where.rsplit(':', 1)[0]
    if bad:
        for n, why in bad:
            rep.violated(rule, subject, '%s:%d' % (path, n.lineno), why)
    elif unsure:
        rep.undecided(rule, subject, where, unsure[0][1])
    else:
        rep.holds(rule, subject, where)


def strip(src):
    def sub(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sub, src, flags=re.S)


def native(rep):
    rule = 'no error is absorbed in the native sources'
    root = os.path.join(pyfront.REPO, 'riptide')
    files = sorted(p for e in ('hpp', 'cpp', 'h', 'cc') for p in glob.glob(os.path.join(root, '**', '*.' + e), recursive=True))
    for p in files:
        src = strip(open(p).read())
        rel = os.path.relpath(p, pyfront.REPO)
        bad = []
        for m in re.finditer(r'\bcatch\s*\(', src):
            i = src.index('{', m.end())
            d, j = 0, i
            while j < len(src):
                d += {'{': 1, '}': -1}.get(src[j], 0)
                j += 1
                if d == 0:
                    break
            if not re.search(r'\bthrow\b|PyErr_Set|error_already_set', src[i:j]):
                bad.append(src.count('\n', 0, m.start()) + 1)
        if bad:
            rep.violated(rule, rel, '%s:%d' % (rel, bad[0]), 'a catch clause that does not throw')
        else:
            rep.holds(rule, rel, rel + ':1')


def run(rep):
    s = Suite(rep, '')
    g = effects.Graph(s.prog)
    c = Census(g, rep)
    for mn, m in sorted(s.prog.modules.items()):
        if m.path.startswith('<') or mn == P + '_version' or '.tests' in mn:
            continue
        top = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))]
        scan(c, effects.Fn(mn, m, ast.parse('def f(): pass').body[0]), top, 'module ' + mn, '%s:1' % m.path, rep)
    for q, f in sorted(g.fns.items()):
        if '.tests' in q or q.startswith(P + '_version'):
            continue
        scan(c, f, f.node.body, q.replace('riptide.', '', 1), f.where, rep)
    native(rep)
