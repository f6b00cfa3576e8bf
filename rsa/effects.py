"""Call graph over the syntax trees and per-function effects: shared state written, clocks and randomness, files written."""
import ast

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'remove', 'discard', 'sort',
            'reverse', 'fill', 'resize', 'put', 'itemset', 'setflags', 'move_to_end', 'appendleft', 'popleft', 'rotate', 'partition',
            '__setitem__', '__delitem__', 'byteswap'}
THROUGH = {'get', 'setdefault', 'items', 'values', '__getitem__'}
CLOCK = ('time.', 'random.', 'np.random.', 'numpy.random.', 'uuid.', 'secrets.', 'datetime.', 'os.urandom', 'os.getpid')
WRITERS = ('np.save', 'np.savez', 'np.savetxt', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'os.remove', 'os.unlink', 'os.rename',
           'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.symlink', 'os.link', 'shutil.', 'tempfile.', 'os.open', 'os.write')
WRITE_METHODS = {'tofile', 'to_csv', 'savefig', 'write_text', 'write_bytes', 'to_json', 'to_hdf', 'to_pickle', 'unlink', 'dump'}
MEMO = ('functools.lru_cache', 'functools.cache', 'functools.cached_property')
MUTABLE_CALLS = {'dict', 'list', 'set', 'collections.OrderedDict', 'collections.defaultdict', 'collections.deque', 'np.zeros', 'np.empty',
                 'np.ones', 'np.array', 'np.asarray', 'bytearray'}


class Fn:
    def __init__(self, qual, mod, node, cls=None, parent=None):
        self.qual, self.mod, self.node, self.cls, self.parent = qual, mod, node, cls, parent

    @property
    def where(self):
        return '%s:%d' % (self.mod.path, self.node.lineno)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.fns, self.classes, self.methods = {}, {}, {}
        for mn, m in sorted(prog.modules.items()):
            if m.path.startswith('<'):
                continue
            self._collect(m, m.tree.body, mn, None, None)
        self._edges = {}

    def _collect(self, m, body, prefix, cls, parent):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(prefix + '.' + st.name, m, st, cls, parent)
                if f.qual in self.fns:      # e.g. a property and its setter
                    f.qual += '@%d' % st.lineno
                self.fns[f.qual] = f
                if cls:
                    self.methods.setdefault(st.name, []).append(f.qual)
                self._collect(m, st.body, f.qual + '.<locals>', None, f)
            elif isinstance(st, ast.ClassDef):
                self.classes[prefix + '.' + st.name] = (m, st)
                self._collect(m, st.body, prefix + '.' + st.name, prefix + '.' + st.name, parent)
            else:
                for blk in ('body', 'orelse', 'finalbody'):
                    b = getattr(st, blk, None)
                    if isinstance(b, list):
                        self._collect(m, b, prefix, cls, parent)
                for h in getattr(st, 'handlers', ()):
                    self._collect(m, h.body, prefix, cls, parent)

    # ------------------------------------------------------------ names
    def params(self, f):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    def own(self, f):
        """nodes of the function itself, nested functions and classes excluded"""
        out, stack = [], list(f.node.body)
        while stack:
            n = stack.pop()
            out.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return out

    def local_names(self, f):
        if not hasattr(f, '_locals'):
            glob = set()
            names = set(self.params(f))
            for n in self.own(f):
                if isinstance(n, ast.Global):
                    glob |= set(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.arg):
                    names.add(n.arg)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    names |= {(a.asname or a.name).split('.')[0] for a in n.names}
            f._globals, f._locals = glob, names - glob
            f._imports = {}
            for n in self.own(f):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        f._imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    base = f.mod._rel(n)
                    for a in n.names:
                        f._imports[a.asname or a.name] = base + '.' + a.name
        return f._locals

    def dotted(self, f, e):
        """canonical dotted name of an expression that names a module-level object, or None"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        x = f
        while x is not None:
            if e.id in self.local_names(x):
                if e.id in x._imports:
                    return self._canon('.'.join([x._imports[e.id]] + parts[::-1]))
                return None
            x = x.parent
        d = f.mod.defs.get(e.id)
        base = f.mod.name + '.' + e.id
        if d is None and e.id not in f.mod.all_assigns:
            import builtins
            return '.'.join([e.id] + parts[::-1]) if hasattr(builtins, e.id) else None
        return self._canon('.'.join([base] + parts[::-1]))

    def _canon(self, d):
        r = self.prog.resolve(d)
        if r is not None:
            return r[3]
        d = self.prog.external_name(d)
        return 'np' + d[5:] if d.startswith('numpy.') else d

    # ------------------------------------------------------------ call graph
    def edges(self, q):
        if q in self._edges:
            return self._edges[q]
        f = self.fns[q]
        out = set()
        nodes = self.own(f) + [y for d in f.node.decorator_list for y in ast.walk(d)]
        nodes += [y for d in f.node.args.defaults + [z for z in f.node.args.kw_defaults if z] for y in ast.walk(d)]
        for n in nodes:
            if isinstance(n, (ast.FunctionDef,)) and f.qual + '.<locals>.' + n.name in self.fns:
                out.add(f.qual + '.<locals>.' + n.name)
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                self._ref(f, n, out)
        self._edges[q] = out
        return out

    def _ref(self, f, n, out, depth=0):
        d = self.dotted(f, n)
        if d is None:
            if isinstance(n, ast.Attribute):
                for m in self.methods.get(n.attr, ()):
                    out.add(m)
                # class-level tables of functions reached through an instance
                for c, (m, node) in self.classes.items():
                    for s in node.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.attr for t in s.targets):
                            self._refs_of(m, s.value, out, depth)
            return
        r = self.prog.resolve(d)
        if r is None:
            return
        if r[0] == 'func' and r[3] in self.fns:
            out.add(r[3])
        elif r[0] == 'method':
            out.add(r[3])
        elif r[0] == 'class':
            self._class(r[3], out)
        elif r[0] in ('expr', 'classattr') and depth < 4:
            v = r[2][1] if r[0] == 'classattr' else r[2]
            self._refs_of(r[1], v, out, depth)

    def _refs_of(self, m, v, out, depth):
        if not isinstance(v, ast.AST):
            return
        dummy = Fn(m.name, m, ast.parse('def f(): pass').body[0])
        for y in ast.walk(v):
            if isinstance(y, (ast.Name, ast.Attribute)):
                self._ref(dummy, y, out, depth + 1)

    def _class(self, q, out):
        m, node = self.classes.get(q, (None, None))
        if node is None:
            return
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name.startswith('__'):
                out.add(q + '.' + s.name)
        for b in node.bases:
            r = self.prog.resolve(m.name + '.' + b.id) if isinstance(b, ast.Name) else None
            if r and r[0] == 'class':
                self._class(r[3], out)

    def reachable(self, roots):
        seen, stack = set(), [r for r in roots if r in self.fns]
        while stack:
            q = stack.pop()
            if q in seen or q not in self.fns:
                continue
            seen.add(q)
            stack.extend(self.edges(q))
        return seen

    # ------------------------------------------------------------ roots of expressions
    def roots(self, f):
        """name -> set of roots: ('param', n) ('global', dotted) ('class', expr) ('selfattr', n) ('fresh',)"""
        if hasattr(f, '_roots'):
            return f._roots
        R = {p: {('param', p)} for p in self.params(f)}
        binds = []
        for n in self.own(f):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    binds.append((tg, n.value, False))
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                binds.append((n.target, n.value, False))
            elif isinstance(n, (ast.For, ast.comprehension)):
                binds.append((n.target, n.iter, True))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                binds.append((n.optional_vars, n.context_expr, False))
        f._roots = R
        for _ in range(4):
            for tg, v, it in binds:
                self._bind(f, R, tg, v)
        return R

    def _bind(self, f, R, tg, v):
        if isinstance(tg, ast.Name):
            R.setdefault(tg.id, set()).update(self.root(f, v))
        elif isinstance(tg, (ast.Tuple, ast.List)):
            es = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(tg.elts) else None
            for k, e in enumerate(tg.elts):
                self._bind(f, R, e.value if isinstance(e, ast.Starred) else e, es[k] if es else v)

    def root(self, f, e):
        R = f.__dict__.get('_roots', {})
        if isinstance(e, ast.Name):
            x = f
            while x is not None:
                if e.id in self.local_names(x):
                    if x is not f:
                        self.roots(x)
                    if e.id in x._imports:
                        break
                    return set(x.__dict__.get('_roots', {}).get(e.id, {('fresh',)}))
                x = x.parent
            d = self.dotted(f, e)
            return {('global', d or f.mod.name + '.' + e.id)}
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'cls' and 'cls' in self.params(f):
                return {('class', e.attr)}
            if e.attr == '__class__':
                return {('classobj',)}
            d = self.dotted(f, e)
            if d is not None:
                return {('global', d)}
            b = self.root(f, e.value)
            if ('classobj',) in b:
                return {('class', e.attr)}
            if isinstance(e.value, ast.Name) and self.params(f) and e.value.id == self.params(f)[0] and f.cls:
                return {('selfattr', e.attr)}
            return b
        if isinstance(e, ast.Subscript):
            return self.root(f, e.value)
        if isinstance(e, ast.Starred):
            return self.root(f, e.value)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
                return {('classobj',)}
            if isinstance(e.func, ast.Attribute) and e.func.attr in THROUGH:
                return self.root(f, e.func.value)
            if isinstance(e.func, ast.Name) and e.func.id in ('iter', 'enumerate', 'zip', 'reversed', 'vars', 'globals'):
                if e.func.id == 'globals':
                    return {('global', f.mod.name)}
                return set().union(*[self.root(f, a) for a in e.args]) if e.args else {('fresh',)}
            return {('fresh',)}
        if isinstance(e, ast.IfExp):
            return self.root(f, e.body) | self.root(f, e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.root(f, v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.root(f, e.value)
        return {('fresh',)}

    # ------------------------------------------------------------ flow-sensitive aliases
    def env_at(self, f, node):
        """roots of the local names just before the statement that contains the node"""
        if not hasattr(f, '_snap'):
            f._snap, f._stmt = {}, {}
            self.roots(f)
            self._mark(f, f.node.body)
            f._snap_env = None
            self._block(f, f.node.body, {p: {('param', p)} for p in self.params(f)})
        st = f._stmt.get(node)
        return f._snap.get(st)

    def _mark(self, f, body):
        for s in body:
            stack = [s]
            while stack:
                n = stack.pop()
                f._stmt[n] = s
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not s:
                    continue
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.stmt) or isinstance(c, ast.ExceptHandler):
                        continue
                    stack.append(c)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for blk in ('body', 'orelse', 'finalbody'):
                b = getattr(s, blk, None)
                if isinstance(b, list):
                    self._mark(f, b)
            for h in getattr(s, 'handlers', ()):
                self._mark(f, h.body)

    def _block(self, f, body, env):
        for s in body:
            env = self._step(f, s, env)
        return env

    def _join(self, *envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, set()) | v
        return out

    def _step(self, f, s, env):
        old = f._snap.get(s)
        f._snap[s] = self._join(old, env) if old else dict(env)

        def root(e):
            keep = f._roots
            f._roots = {**keep, **env}
            try:
                return self.root(f, e)
            finally:
                f._roots = keep

        def bind(tg, v, env):
            if isinstance(tg, ast.Name):
                env[tg.id] = set(root(v))
            elif isinstance(tg, (ast.Tuple, ast.List)):
                es = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(tg.elts) else None
                for k, e in enumerate(tg.elts):
                    bind(e.value if isinstance(e, ast.Starred) else e, es[k] if es else v, env)
        env = dict(env)
        if isinstance(s, ast.Assign):
            for tg in s.targets:
                bind(tg, s.value, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            bind(s.target, s.value, env)
        elif isinstance(s, ast.If):
            env = self._join(self._block(f, s.body, dict(env)), self._block(f, s.orelse, dict(env)))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for _ in range(2):
                e2 = dict(env)
                bind(s.target, s.iter, e2)
                env = self._join(env, self._block(f, s.body, e2))
            env = self._block(f, s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(2):
                env = self._join(env, self._block(f, s.body, dict(env)))
            env = self._block(f, s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for w in s.items:
                if w.optional_vars is not None:
                    bind(w.optional_vars, w.context_expr, env)
            env = self._block(f, s.body, env)
        elif isinstance(s, ast.Try):
            e1 = self._block(f, s.body, dict(env))
            es = [self._block(f, h.body, self._join(env, e1)) for h in s.handlers]
            env = self._join(self._block(f, s.orelse, e1), *es)
            env = self._block(f, s.finalbody, env)
        return env

    def root_at(self, f, e, node):
        env = self.env_at(f, node)
        if env is None:
            return self.root(f, e)
        keep = f._roots
        f._roots = {**keep, **env}
        try:
            return self.root(f, e)
        finally:
            f._roots = keep

    # ------------------------------------------------------------ effects
    def writes(self, f):
        """in-place modifications in the function: [(target expression, how, node)]"""
        out = []
        for n in self.own(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.Delete)):
                flat = []
                for x in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
                    if isinstance(x, (ast.Tuple, ast.List)):
                        flat += [y for y in ast.walk(x) if isinstance(y, (ast.Subscript, ast.Attribute)) and not isinstance(y.ctx, ast.Load)]
                    else:
                        flat.append(x)
                for x in flat:
                    if isinstance(x, ast.Subscript):
                        out.append((x.value, 'item assignment', n))
                    elif isinstance(x, ast.Attribute):
                        out.append((x, 'attribute assignment', n))
                    elif isinstance(x, ast.Name) and isinstance(n, ast.AugAssign):
                        out.append((x, 'in-place operator', n))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    out.append((n.func.value, '.%s()' % n.func.attr, n))
                elif isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                    out.append((n.args[0], n.func.id, n))
                for k in n.keywords:
                    if k.arg == 'out':
                        out.append((k.value, 'out=', n))
                d = self.dotted(f, n.func)
                if d in ('np.copyto', 'np.put', 'np.place', 'np.putmask', 'np.fill_diagonal', 'random.shuffle', 'np.random.shuffle') and n.args:
                    out.append((n.args[0], d, n))
        return out

    def is_instance_attr(self, cls, name):
        """assigned on instances by some method of the class (so not shared through the class)"""
        m, node = self.classes[cls]
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name in ('__init__', '__new__', '__setstate__'):
                for y in ast.walk(s):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == name:
                        return True
        return False

    def class_attr(self, cls, name):
        m, node = self.classes[cls]
        for s in node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return s.value
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                return s.value
        return None

    def mutable_value(self, f, v):
        if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        return isinstance(v, ast.Call) and self.dotted(f, v.func) in MUTABLE_CALLS

    def shared_writes(self, f):
        """[(description, node)]: module-level, class-level or default-argument state modified by the function"""
        out = []
        self.roots(f)
        loc = self.local_names(f)
        for n in self.own(f):
            if isinstance(n, (ast.Name,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in f._globals:
                out.append(('assigns the module-level name %s' % n.id, n))
        for x, how, n in self.writes(f):
            if how == 'in-place operator' and isinstance(x, ast.Name) and x.id not in loc and x.id not in f._globals:
                continue
            base = x.value if how == 'attribute assignment' else x
            rs = self.root_at(f, base, n)
            if how == 'attribute assignment' and isinstance(base, ast.Name) and base.id == 'cls' and 'cls' in self.params(f):
                out.append(('assigns the class attribute %s' % x.attr, n))
                continue
            if how == 'attribute assignment' and ('classobj',) in rs:
                out.append(('assigns the class attribute %s' % x.attr, n))
                continue
            for r in sorted(rs, key=str):
                if r[0] == 'global':
                    res = self.prog.resolve(r[1]) if r[1] else None
                    if res is not None or r[1] and r[1].split('.')[0] == 'riptide' or r[1] in ('os.environ',) or \
                            (how == 'attribute assignment' and r[1]):
                        out.append(('modifies the module-level object %s (%s)' % (r[1], how), n))
                elif r[0] == 'class':
                    out.append(('modifies the class attribute %s (%s)' % (r[1], how), n))
                elif r[0] == 'selfattr' and how != 'in-place operator' and f.cls and not (how == 'attribute assignment' and base is x):
                    v = self.class_attr(f.cls, r[1])
                    if v is not None and not self.is_instance_attr(f.cls, r[1]):
                        out.append(('modifies the class attribute %s through an instance (%s)' % (r[1], how), n))
                elif r[0] == 'param' and r[1] in self.mutable_defaults(f):
                    out.append(('modifies the default value of parameter %s (%s)' % (r[1], how), n))
        for n in self.own(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in self.mutable_defaults(f):
                for tg in n.targets:
                    if isinstance(tg, ast.Attribute):
                        out.append(('keeps the default value of parameter %s' % n.value.id, n))
        return out

    def mutable_defaults(self, f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        out = {p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if self.mutable_value(f, d)}
        return out | {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and self.mutable_value(f, d)}

    def memo(self, f):
        for d in f.node.decorator_list:
            x = self.dotted(f, d.func if isinstance(d, ast.Call) else d)
            if x in MEMO:
                return x
        return None

    def nondeterminism(self, f):
        """[(description, node)]: clock or random values that reach anything but a log message"""
        src = []
        tainted = set()
        par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n

        def is_log(c):
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log')

        def sink(n):
            """where the value of a node ends up: 'log', ('name', x), or a node"""
            x = n
            while x in par:
                p = par[x]
                if is_log(p) and x is not p.func:
                    return 'log'
                if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
                    return ('name', [t.id for t in p.targets])
                if isinstance(p, ast.Expr):
                    return 'log'
                if isinstance(p, (ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue)):
                    x = p
                    continue
                if isinstance(p, ast.Attribute):
                    x = p
                    continue
                if isinstance(p, ast.Call) and (x in p.args or x is p.func or any(k.value is x for k in p.keywords)):
                    if x is p.func and isinstance(x, ast.Attribute) and x.attr != 'format' and not isinstance(x.value, ast.Constant):
                        x = p
                        continue
                    if isinstance(p.func, ast.Attribute) and p.func.attr == 'format':
                        x = p
                        continue
                    return p
                if isinstance(p, ast.keyword):
                    x = p
                    continue
                return p
            return 'log'
        out = []
        nodes = self.own(f)
        for n in nodes:
            if isinstance(n, ast.Call):
                d = self.dotted(f, n.func)
                if d and (d.startswith(CLOCK) or d in CLOCK) and not d.startswith('time.sleep'):
                    if isinstance(par.get(n), ast.Expr) and 'random' in d:
                        out.append(('%s is called for its effect' % d, n))
                    src.append((d, n))
        work = list(src)
        done = set()
        while work:
            d, n = work.pop()
            s = sink(n)
            if s == 'log':
                continue
            if isinstance(s, tuple):
                for x in s[1]:
                    if x in done:
                        continue
                    done.add(x)
                    for y in nodes:
                        if isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load):
                            work.append((d, y))
                continue
            out.append(('the value of %s is used' % d, n))
        return out

    def file_writes(self, f):
        out = []
        for n in self.own(f):
            if not isinstance(n, ast.Call):
                continue
            d = self.dotted(f, n.func)
            if d in ('open', 'io.open', 'gzip.open', 'os.fdopen'):
                mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if mode is None:
                    continue
                if not isinstance(mode, ast.Constant) or any(c in str(mode.value) for c in 'wax+'):
                    out.append(('opens a file for writing', n))
            elif d and any(d == w or (w.endswith('.') and d.startswith(w)) for w in WRITERS):
                out.append(('calls ' + d, n))
            elif d is None and isinstance(n.func, ast.Attribute) and n.func.attr in WRITE_METHODS:
                out.append(('calls .%s()' % n.func.attr, n))
        return out

    def reads_files(self, f):
        for n in self.own(f):
            if isinstance(n, ast.Call):
                d = self.dotted(f, n.func)
                if d in ('open', 'io.open', 'np.fromfile', 'np.load', 'np.loadtxt', 'os.stat', 'os.path.getsize', 'np.memmap'):
                    return True
        return False
