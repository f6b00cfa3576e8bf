"""Gated value-flow analysis of Python syntax trees.

One pass over the statements of a function computes, for every variable, heap field and emitted effect, the term (see
terms.py) it denotes as a function of the inputs: branches are joined with gates (ite), loops are summarised by
recognising the recurrence of every variable they change (running sums, appended lists, searches, last values, ...)
and calls to functions of the analysed package are replaced by their bodies.  Nothing is executed, no path is
enumerated and no solver is involved; what cannot be summarised becomes a canonical opaque term.
"""
import ast
import itertools
from fractions import Fraction

from . import terms as t
from .terms import mk, num, const, TRUE, FALSE, NONE, ZERO, ONE, ite, land, lor, lnot, EMPTY
from . import lib
from . import cxx

UNDEF = mk('undef')


class Unsupported(Exception):
    def __init__(self, msg, node=None, file=None):
        self.node = node
        where = ''
        if node is not None and hasattr(node, 'lineno'):
            where = ' at %s:%d' % (getattr(node, '_file', '?'), node.lineno)
        super().__init__(msg + where)


class Closure:
    def __init__(self, node, module, frame, cls=None, defaults=(), kwdefaults=None, qual=None):
        self.node, self.module, self.frame, self.cls = node, module, frame, cls
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults or {}, qual


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Builtin:
    def __init__(self, f):
        self.f = f


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Frame:
    n = itertools.count(1)

    def __init__(self, parent, module, cls=None, locals_=(), qual='?'):
        self.id = next(Frame.n)
        self.parent, self.module, self.cls = parent, module, cls
        self.locals = set(locals_)
        self.globals = set()
        self.nonlocals = set()
        self.qual = qual
        self.captured = False
        self.self_name = None
        self.is_gen = False


class Ctx:
    def __init__(self, kind, parent=None):
        self.kind, self.parent = kind, parent
        self.raises, self.returns, self.breaks, self.continues = [], [], [], []

    def n_exits(self):
        return (len(self.raises), len(self.returns), len(self.breaks), len(self.continues))

    def exit_conds(self, since=(0, 0, 0, 0)):
        return [x[0] for x in self.raises[since[0]:]] + [x[0] for x in self.returns[since[1]:]] + \
            [x[0] for x in self.breaks[since[2]:]] + [x[0] for x in self.continues[since[3]:]]


class State:
    __slots__ = ('vars', 'heap', 'pc')

    def __init__(self, vars=None, heap=None, pc=TRUE):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.vars), dict(self.heap), self.pc)

    def set(self, o):
        self.vars, self.heap, self.pc = o.vars, o.heap, o.pc


class Event:
    __slots__ = ('kind', 'guard', 'loops', 'data', 'where', 'tries', 'fn', 'seq', 'hits')

    def __init__(self, kind, guard, loops, data, where, tries, fn):
        self.kind, self.guard, self.loops, self.data, self.where, self.tries, self.fn = \
            kind, guard, loops, data, where, tries, fn
        self.hits = ()      # (loop index, first iteration that leaves the loop, condition under which an iteration leaves it)

    def __repr__(self):
        return '%s %s if %s @%s' % (self.kind, {k: (v if not isinstance(v, tuple) else v) for k, v in self.data.items()},
                                    self.guard, self.where)


class Result:
    """summary of an analysed entry point"""
    def __init__(self):
        self.ret = UNDEF
        self.raises = []        # (cond, exception name)
        self.events = []
        self.state = None
        self.params = {}

    def raise_cond(self, *names):
        return lor(*[c for c, n in self.raises if not names or n in names])


def assigned_names(body):
    out, glob, nonl = set(), set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            out.add(n.target.id)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    return out - glob - nonl, glob, nonl


def has_yield(body):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_FunctionDef

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield
    v = V()
    for s in body:
        v.visit(s)
    return v.found


# attribute names that are computed properties of exactly one class: resolved by name on untyped values
NAME_PROPS = {}

BUILTIN_NAMES = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


class Ev:
    def __init__(self, prog, opaque=(), types=None, attr_types=None, ret_types=None, max_depth=14, name_props=True,
                 inline_new=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.types = dict(types or {})
        self.attr_types = dict(attr_types or {})
        self.ret_types = dict(ret_types or {})
        self.max_depth = max_depth
        self.funs = []
        self.refs = {}          # ref T -> dict(kind, cls, init, mod)
        self.nref = itertools.count(1)
        self.events = []
        self.guards = []
        self.loops = []
        self.tries = []
        self.depth = 0
        self.stack = []
        self.modcache = {}
        self.inlined = set()    # qualnames of repo functions whose bodies were analysed
        self.opaque_used = set()
        self.unmodelled = set()
        self.name_props = name_props
        self.classcache = {}
        self.consulted = set()
        self.protos = getattr(prog, 'protos', {})   # native functions: [(parameter, type, kind)]
        self.buffers = []

    # ------------------------------------------------------------ small helpers
    def fun(self, obj):
        self.funs.append(obj)
        return mk('fun', len(self.funs) - 1)

    def new_ref(self, kind, content=None, cls=None, origin=None):
        r = mk('ref', next(self.nref))
        self.refs[r] = {'kind': kind, 'cls': cls, 'init': content, 'origin': origin}
        return r

    def event(self, kind, st, node, **data):
        where = '%s:%d' % (getattr(node, '_file', '?'), getattr(node, 'lineno', 0)) if node is not None else '?'
        g = land(*self.guards, st.pc)
        e = Event(kind, g, tuple(self.loops), data, where, tuple(self.tries), self.stack[-1] if self.stack else '?')
        self.events.append(e)
        return e

    # ------------------------------------------------------------ references and contents
    def content(self, x, st):
        """content of a container value"""
        if x.op == 'ref':
            c = st.heap.get((x, '$c'))
            if c is None:
                c = self.refs[x]['init']
            return c
        c = st.heap.get((x, '$c'))
        return c if c is not None else x

    def set_content(self, x, c, st):
        st.heap[(x, '$c')] = c

    _hr = {}

    def has_ref(self, x):
        r = self._hr.get(x)
        if r is None:
            r = x.op in ('ref', 'fun') or any(self.has_ref(c) for c in t._walk_children(x.a))
            self._hr[x] = r
        return r

    def deref(self, x, st, depth=0):
        if depth > 12:
            return mk('deep')
        if x.op == 'ref':
            info = self.refs[x]
            if info['kind'] == 'buf':
                return x
            c = self.content(x, st)
            if info['kind'] == 'inst':
                fields = {}
                for (loc, f), v in st.heap.items():
                    if loc is x and f != '$c':
                        fields[f] = self.deref(v, st, depth + 1)
                if c is not None:
                    fields['$c'] = self.deref(c, st, depth + 1)
                if not fields and info['init'] is not None:
                    return self.deref(info['init'], st, depth + 1)
                return mk('rec', info['cls'], tuple(sorted(fields.items())))
            if c is None:
                return x
            return self.deref(c, st, depth + 1) if c is not x else x
        if x.op == 'fun':
            return self.fun_term(x, st)
        ov = st.heap.get((x, '$c'))
        if ov is not None and ov is not x:
            return self.deref(ov, st, depth + 1)
        if not self.has_ref(x):
            return x
        return t.map_children(x, lambda y: self.deref(y, st, depth + 1))

    def fun_term(self, f, st):
        o = self.funs[f.a[0]]
        if isinstance(o, Closure):
            args = o.node.args
            names = [a.arg for a in args.posonlyargs + args.args]
            if o.qual and not isinstance(o.node, ast.Lambda) and o.frame is None:
                return mk('glob', o.qual)
            if self.depth > self.max_depth:
                return f
            idxs = [t.fresh_idx() for _ in names]
            ev = self.events
            self.events = []
            save = (self.guards, self.loops, self.tries)
            try:
                st2 = st.copy()
                st2.pc = TRUE
                r = self.call_closure(o, [t.larg(i) for i in idxs], {}, st2, o.node)
                body = self.deref(r, st2)
            finally:
                self.events = ev
                self.guards, self.loops, self.tries = save
            for i in reversed(idxs):
                body = t.bind('lambda', i, (num(1),), (body,))
            return body
        if isinstance(o, Bound):
            return mk('bound', self.fun_term(o.fn, st) if o.fn.op == 'fun' and not self._is_top(o.fn) else self._fn_name(o.fn),
                      self.deref(o.self, st))
        if isinstance(o, Builtin):
            try:
                return lib.lam(self, f, st, None)
            except Exception:
                return f
        if isinstance(o, Partial):
            return mk('partial', self.deref(o.fn, st), tuple(self.deref(a, st) for a in o.args),
                      tuple((k, self.deref(v, st)) for k, v in sorted(o.kwargs.items())))
        return f

    def is_text(self, x):
        """values known to be strings"""
        if x.op == 'fstr' or (x.op == 'const' and isinstance(x.a[0], str)):
            return True
        if x.op == 'mcall' and x.a[0] in ('decode', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'to_string'):
            return True
        if x.op == 'item' and x.a[0].op == 'mcall' and x.a[0].a[0] in ('split', 'rsplit', 'splitlines'):
            return True
        if x.op == 'fread':
            return True
        if x.op == 'ite':
            return self.is_text(x.a[1]) and self.is_text(x.a[2])
        return False

    def _is_top(self, f):
        o = self.funs[f.a[0]]
        return isinstance(o, Closure) and o.qual is not None

    def _fn_name(self, f):
        if f.op == 'glob':
            return f
        return mk('glob', self.funs[f.a[0]].qual)

    # ------------------------------------------------------------ types
    def typeof(self, x, st=None):
        c = self.types.get(x)
        if c:
            return c
        if x.op == 'ref':
            return self.refs[x]['cls']
        if x.op == 'rec':
            return x.a[0]
        if x.op == 'attr':
            b = self.typeof(x.a[0])
            if b:
                return self.attr_types.get((b.rsplit('.', 1)[-1], x.a[1]))
            return None
        if x.op in ('app',):
            return self.ret_types.get(x.a[0])
        if x.op == 'mcall':
            return self.ret_types.get('.' + x.a[0])
        if x.op == 'item':
            b = self.typeof(x.a[0])
            if b and b.startswith('list:'):
                return b[5:]
            return None
        if x.op in ('sorted', 'slice', 'reversed'):
            return self.typeof(x.a[0])
        if x.op in ('maxby', 'minby'):
            b = self.typeof(x.a[0])
            return b[5:] if b and b.startswith('list:') else None
        if x.op == 'collect':
            i, outer, inner = t.open_node(x)
            b = self.typeof(inner[0])
            return 'list:' + b if b else None
        if x.op == 'ite':
            a, b = self.typeof(x.a[1]), self.typeof(x.a[2])
            return a if a == b else (a or b if (x.a[1] is NONE or x.a[2] is NONE) else None)
        return None

    def cls_info(self, qual):
        """(Module, ClassDef) of a class of the analysed program"""
        r = self.prog.resolve(qual)
        if r and r[0] == 'class':
            return r[1], r[2], r[3]
        return None

    def mro(self, qual):
        out, seen = [], set()
        def go(q):
            ci = self.cls_info(q)
            if ci is None:
                out.append((q, None, None))
                return
            m, node, canon = ci
            if canon in seen:
                return
            seen.add(canon)
            out.append((canon, m, node))
            for b in node.bases:
                bt = self.eval_module_expr(m, b)
                if bt.op == 'glob':
                    go(bt.a[0])
                elif bt.op == 'call':
                    out.append((bt.a[0], None, bt))
        go(qual)
        return out

    def find_member(self, qual, name):
        """(kind, Module, class qual, node) for a method / class attribute of class `qual`, or None"""
        key = (qual, name)
        if key in self.classcache:
            return self.classcache[key]
        res = None
        for q, m, node in self.mro(qual):
            if m is None:
                continue
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    kind = 'method'
                    for d in s.decorator_list:
                        dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
                        if dn in ('property', 'cached_property'):
                            kind = 'property'
                        elif dn == 'classmethod':
                            kind = 'classmethod'
                        elif dn == 'staticmethod':
                            kind = 'staticmethod'
                        elif dn == 'setter':
                            kind = 'setter'
                    if kind != 'setter':
                        res = (kind, m, q, s)
                elif isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
                    res = ('attr', m, q, s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    res = ('attr', m, q, s.value)
            if res:
                break
        self.classcache[key] = res
        return res

    def member_closure(self, info):
        kind, m, q, node = info
        key = ('mclosure', q, node.name)
        f = self.modcache.get(key)
        if f is None:
            st = State()
            fr = Frame(None, m, cls=q, qual=q)
            defaults, kwd = self.eval_defaults(node, st, fr)
            f = self.fun(Closure(node, m, None, cls=q, defaults=defaults, kwdefaults=kwd, qual=q + '.' + node.name))
            self.modcache[key] = f
            decos = [d for d in node.decorator_list
                     if not (isinstance(d, ast.Name) and d.id in ('property', 'classmethod', 'staticmethod'))
                     and not (isinstance(d, ast.Attribute) and d.attr in ('cached_property',))]
            base = f
            for d in reversed(decos):
                f = self.apply_decorator(d, f, st, fr)
            if f is not base:
                self._adopt(st)
            self.modcache[key] = f
        return f

    def _adopt(self, st):
        """keep the variables of module-level evaluation alive (decorator closures)"""
        self.modstate().vars.update(st.vars)

    def modstate(self):
        if not hasattr(self, '_ms'):
            self._ms = State()
        return self._ms

    def apply_decorator(self, d, f, st, fr):
        dv = self.expr(d, st, fr, Ctx('fn'))
        if dv.op == 'glob':
            n = dv.a[0]
            if n in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
                if n != 'functools.wraps':
                    self.unmodelled.add(n)
                return f
        if dv.op == 'call' and dv.a[0] in ('functools.wraps',):
            return f
        return self.call_value(dv, [f], {}, st, d)

    def eval_defaults(self, node, st, fr):
        ctx = Ctx('fn')
        d = [self.expr(x, st, fr, ctx) for x in node.args.defaults]
        k = {a.arg: self.expr(x, st, fr, ctx) for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults) if x is not None}
        return d, k

    # ------------------------------------------------------------ module level
    def eval_module_expr(self, m, node):
        key = ('mexpr', m.name, id(node))
        r = self.modcache.get(key)
        if r is None:
            self.modcache[key] = mk('glob', m.name + '.?')
            fr = Frame(None, m, qual=m.name)
            st = State()
            r = self.expr(node, st, fr, Ctx('fn'))
            # objects created at module level keep their contents as initial contents
            for (loc, f), v in st.heap.items():
                if loc.op == 'ref' and f == '$c':
                    self.refs[loc]['init'] = v
                elif loc.op == 'ref':
                    self.modstate().heap[(loc, f)] = v
            self._adopt(st)
            self.modcache[key] = r
        return r

    def module_name(self, m, name):
        d = m.defs.get(name)
        if d is None:
            return None
        dotted = m.name + '.' + name
        return self.dotted(dotted)

    def dotted(self, dotted):
        r = self.prog.resolve(dotted)
        if r is None:
            return mk('glob', lib.canon(self.prog.external_name(dotted)))
        kind, m, node, canon = r
        if kind == 'expr':
            v = self.eval_module_expr(m, node)
            if v.op == 'ref' and self.refs[v]['origin'] is None:
                self.refs[v]['origin'] = canon
            return v
        if kind == 'classattr':
            v = self.eval_module_expr(m, node[1])
            if v.op == 'ref' and self.refs[v]['origin'] is None:
                self.refs[v]['origin'] = canon
            return v
        return mk('glob', canon)

    # ------------------------------------------------------------ names
    def lookup(self, name, st, fr, node):
        f = fr
        while f is not None:
            if name in f.globals:
                break
            k = (f.id, name)
            if k in st.vars:
                return st.vars[k]
            if k in self.modstate().vars:
                return self.modstate().vars[k]
            if name in f.locals:
                return UNDEF
            f = f.parent
        m = fr.module
        k = ('g', m.name, name)
        if k in st.vars:
            return st.vars[k]
        v = self.module_name(m, name)
        if v is not None:
            return v
        if name in BUILTIN_NAMES:
            return mk('glob', name)
        if name.startswith('__'):
            return mk('glob', name)
        return mk('glob', m.name + '.' + name)

    def assign_name(self, name, v, st, fr):
        if name in fr.globals:
            self.event('setglobal', st, None, name=fr.module.name + '.' + name, value=v)
            st.vars[('g', fr.module.name, name)] = v
            return
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
            f = f or fr
        st.vars[(f.id, name)] = v

    # ------------------------------------------------------------ expressions
    def expr(self, n, st, fr, ctx):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__, n)
        return m(n, st, fr, ctx)

    def val(self, n, st, fr, ctx):
        return self.expr(n, st, fr, ctx)

    def dval(self, n, st, fr, ctx):
        return self.deref(self.expr(n, st, fr, ctx), st)

    def x_Constant(self, n, st, fr, ctx):
        return const(n.value)

    def x_Name(self, n, st, fr, ctx):
        return self.lookup(n.id, st, fr, n)

    def x_Tuple(self, n, st, fr, ctx):
        return self._display(n.elts, st, fr, ctx)

    def _display(self, elts, st, fr, ctx):
        out = EMPTY
        for e in elts:
            if isinstance(e, ast.Starred):
                out = t.concat(out, self.iterval(self.expr(e.value, st, fr, ctx), st))
            else:
                out = t.seq_append(out, self.expr(e, st, fr, ctx))
        return out

    def x_List(self, n, st, fr, ctx):
        return self.new_ref('list', self._display(n.elts, st, fr, ctx))

    def x_Set(self, n, st, fr, ctx):
        es = [self.dval(e, st, fr, ctx) for e in n.elts]
        return mk('set', tuple(sorted(set(es), key=lambda x: x.dg)))

    def x_Dict(self, n, st, fr, ctx):
        d = t.dict_([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = t.dict_update(d, self.content(self.expr(v, st, fr, ctx), st))
            else:
                kk = self.dval(k, st, fr, ctx)
                d = t.dict_set(d, kk, self.expr(v, st, fr, ctx))
        return self.new_ref('dict', d)

    def x_JoinedStr(self, n, st, fr, ctx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = ''
                if v.format_spec is not None:
                    sp = self.x_JoinedStr(v.format_spec, st, fr, ctx)
                    spec = sp.a[0] if sp.op == 'const' else t.show(sp)
                parts.append((self.dval(v.value, st, fr, ctx), conv, spec))
        return t.fstr(parts)

    def x_IfExp(self, n, st, fr, ctx):
        c = self.cond(n.test, st, fr, ctx)
        return self._two(c, lambda s: self.expr(n.body, s, fr, ctx), lambda s: self.expr(n.orelse, s, fr, ctx), st, ctx)

    def _two(self, c, f, g, st, ctx):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a, b = st.copy(), st.copy()
        before = ctx.n_exits()
        a.pc = land(st.pc, c)
        b.pc = land(st.pc, lnot(c))
        x = f(a)
        y = g(b)
        return self.join(c, a, b, st, ctx, before, values=(x, y))

    def x_BoolOp(self, n, st, fr, ctx):
        isand = isinstance(n.op, ast.And)
        v = self.expr(n.values[0], st, fr, ctx)
        for e in n.values[1:]:
            c = self.truth(v, st)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                return v
            s2 = st.copy()
            s2.pc = land(st.pc, c if isand else lnot(c))
            before = ctx.n_exits()
            w = self.expr(e, s2, fr, ctx)
            if s2.heap != st.heap or ctx.n_exits() != before:
                s1 = st.copy()
                s1.pc = land(st.pc, lnot(c) if isand else c)
                self.join(c if isand else lnot(c), s2, s1, st, ctx, before)
            dv, dw = self.deref(v, st), self.deref(w, st)
            if t.is_bool(dv) and t.is_bool(dw):
                v = land(dv, dw) if isand else lor(dv, dw)
            elif isand:
                v = ite(c, dw, dv) if not t.is_bool(dv) else (ite(c, dw, FALSE))
            else:
                v = ite(c, dv, dw) if not t.is_bool(dv) else ite(c, TRUE, dw)
        return v

    def x_UnaryOp(self, n, st, fr, ctx):
        v = self.dval(n.operand, st, fr, ctx)
        if isinstance(n.op, ast.Not):
            return lnot(self.truth(v, st))
        if isinstance(n.op, ast.USub):
            return t.neg(v)
        if isinstance(n.op, ast.Invert):
            return lnot(v) if t.is_bool(v) else mk('invert', v)
        return v

    def x_BinOp(self, n, st, fr, ctx):
        a = self.expr(n.left, st, fr, ctx)
        b = self.expr(n.right, st, fr, ctx)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def binop(self, op, a, b, st, n=None):
        isl = a.op == 'ref' and self.refs[a]['kind'] == 'list' or b.op == 'ref' and self.refs[b]['kind'] == 'list'
        if op == 'Add' and isl:
            return self.new_ref('list', t.concat(self.iterval(a, st), self.iterval(b, st)))
        if op == 'Mult' and isl:
            x, k = (a, b) if a.op == 'ref' else (b, a)
            es = t.seq_elems(self.content(x, st)) if x.op == 'ref' else None
            if es is not None and t.is_num(k):
                return self.new_ref('list', t.seq(es * int(k.a[0])))
            if es is not None and len(es) == 1:
                i = t.fresh_idx()
                return self.new_ref('list', t.collect(self.deref(k, st), i, self.deref(es[0], st)))
        a, b = self.deref(a, st), self.deref(b, st)
        if getattr(n, 'fp', False) and getattr(self, 'rounded', False):
            return t.rounded(op, a, b)
        if op == 'Div' and getattr(self, 'rounded_ratios', False) and t.is_int(a) and t.is_int(b) and not t.is_num(a) and not t.is_num(b):
            return t.rounded(op, a, b)
        if op == 'Add':
            return t.add(a, b)
        if op == 'Sub':
            return t.sub(a, b)
        if op == 'Mult':
            return t.mul(a, b)
        if op == 'Div':
            return t.div(a, b)
        if op == 'FloorDiv':
            return t.floordiv(a, b)
        if op == 'Mod':
            if a.op in ('const', 'fstr') and not t.is_num(a):
                return lib.percent_format(a, b)
            return t.mod(a, b)
        if op == 'Pow':
            return t.power(a, b)
        if op == 'BitAnd':
            if t.is_bool(a) or t.is_bool(b):
                return land(a, b)
            for x, y in ((a, b), (b, a)):
                if x is t.ONE and t.is_int(y):
                    return t.mod(y, t.num(2))
            return mk('bitand', *sorted((a, b), key=lambda x: x.dg))
        if op == 'BitOr':
            if t.is_bool(a) or t.is_bool(b):
                return lor(a, b)
            if a.op == 'dict' or b.op == 'dict':
                return t.dict_update(a, b)
            return mk('bitor', *sorted((a, b), key=lambda x: x.dg))
        if op == 'RShift' and t.is_num(b):
            return t.floordiv(a, num(2 ** int(b.a[0])))
        if op == 'LShift' and t.is_num(b):
            return t.mul(a, num(2 ** int(b.a[0])))
        return mk('binop', op, a, b)

    def x_Compare(self, n, st, fr, ctx):
        left = self.expr(n.left, st, fr, ctx)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.expr(c, st, fr, ctx)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return land(*out)

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                if x.op in ('ref', 'fun'):
                    r = FALSE
                else:
                    r = t.isnone(self.deref(x, st))
            elif a is b:
                r = TRUE
            elif a.op == 'ref' and b.op == 'ref':
                r = FALSE
            else:
                r = t.eq(self.deref(a, st), self.deref(b, st))
            return r if op == 'Is' else lnot(r)
        if op in ('In', 'NotIn'):
            r = self.contains(self.deref(a, st), self.content(b, st), st)
            return r if op == 'In' else lnot(r)
        a, b = self.deref(a, st), self.deref(b, st)
        if op == 'Eq':
            return t.eq(a, b)
        if op == 'NotEq':
            return t.ne(a, b)
        return {'Gt': t.gt, 'GtE': t.ge, 'Lt': t.lt, 'LtE': t.le}[op](a, b)

    def contains(self, k, c, st):
        if c.op == 'set':
            return lor(*[t.eq(k, x) for x in c.a[0]])
        if c.op == 'seq' and t.seq_elems(c) is not None:
            return lor(*[t.eq(k, self.deref(x, st)) for x in t.seq_elems(c)])
        if c.op == 'keys':
            return self.contains(k, c.a[0], st)
        if c.op == 'dict':
            if t.is_const(k) and all(t.is_const(kk) for kk, _ in c.a[0]):
                return TRUE if any(kk is k for kk, _ in c.a[0]) else FALSE
            if all(t.is_const(kk) for kk, _ in c.a[0]):
                return lor(*[t.eq(k, kk) for kk, _ in c.a[0]])
            if t.is_const(k) and any(kk is k for kk, _ in c.a[0]):
                return TRUE
            if t.is_const(k) and c.a[0][0][0].op == 'splice' and all(t.is_const(kk) for kk, _ in c.a[0][1:]):
                return self.contains(k, c.a[0][0][1], st)
        c = self.deref(c, st)
        if c.op == 'rec' and dict(c.a[1]).get('$c') is not None:
            return self.contains(k, dict(c.a[1])['$c'], st)
        return t.inside(k, c)

    def truth(self, v, st):
        if v.op == 'fun':
            return TRUE
        if v.op == 'ref' and self.refs[v]['kind'] == 'inst' and self.content(v, st) is None:
            return TRUE
        return t.truth(self.deref(v, st))

    def cond(self, n, st, fr, ctx):
        return self.truth(self.expr(n, st, fr, ctx), st)

    def x_NamedExpr(self, n, st, fr, ctx):
        v = self.expr(n.value, st, fr, ctx)
        self.assign_name(n.target.id, v, st, fr)
        return v

    def x_Lambda(self, n, st, fr, ctx):
        fr.captured = True
        d, k = self.eval_defaults(n, st, fr)
        return self.fun(Closure(n, fr.module, fr, cls=fr.cls, defaults=d, kwdefaults=k))

    def x_Starred(self, n, st, fr, ctx):
        raise Unsupported('starred', n)

    def x_Slice(self, n, st, fr, ctx):
        f = lambda x: self.dval(x, st, fr, ctx) if x is not None else NONE
        return mk('sl', f(n.lower), f(n.upper), f(n.step))

    def x_Subscript(self, n, st, fr, ctx):
        base = self.expr(n.value, st, fr, ctx)
        if isinstance(n.slice, ast.Slice):
            k = self.x_Slice(n.slice, st, fr, ctx)
        else:
            k = self.dval(n.slice, st, fr, ctx)
        return self.subscript(base, k, st, n)

    def subscript(self, base, k, st, n=None):
        if base.op == 'fun':
            return mk('item', self.deref(base, st), k)
        c = self.content(base, st)
        if base.op == 'ref' and self.refs[base]['kind'] == 'inst' and c is None:
            mem = self.find_member(self.refs[base]['cls'], '__getitem__')
            if mem:
                return self.call_value(self.member_closure(mem), [base, k], {}, st, n)
            c = self.deref(base, st)
        if c.op == 'rec':
            d = dict(c.a[1])
            if '$c' in d:
                c = d['$c']
        ov = self._loc_overlay(base, k, st)
        if ov is not None:
            return ov
        if k.op == 'sl':
            s = t.slice_(c, *k.a)
            if base.op == 'ref' and self.refs[base]['kind'] == 'list':
                return self.new_ref('list', s)
            return s
        if c.op == 'ptr' or c.op == 'padd':
            return mk('load', c, k)
        return t.item(c, k)

    def _loc_overlay(self, base, k, st):
        return None

    # ------------------------------------------------------------ attributes
    def x_Attribute(self, n, st, fr, ctx):
        # dotted module path
        d = self._dotted(n, fr, st)
        if d is not None:
            return d
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            return self.super_attr(n, st, fr, ctx)
        base = self.expr(n.value, st, fr, ctx)
        return self.getattr(base, n.attr, st, n, fr)

    def _dotted(self, n, fr, st):
        parts = []
        x = n
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        f = fr
        while f is not None:
            if (f.id, x.id) in st.vars or x.id in f.locals:
                v = st.vars.get((f.id, x.id))
                if v is not None and v.op == 'glob' and not self._is_class(v.a[0]):
                    return self._resolve_dotted(v.a[0] + '.' + '.'.join(reversed(parts)))
                return None
            f = f.parent
        d = fr.module.defs.get(x.id)
        if isinstance(d, tuple) and d[0] == 'import':
            full = d[1] + '.' + '.'.join(reversed(parts))
            return self._resolve_dotted(full)
        return None

    def _is_class(self, q):
        r = self.prog.resolve(q)
        return bool(r and r[0] == 'class')

    def _resolve_dotted(self, full):
        r = self.prog.resolve(full)
        if r is not None:
            if r[0] in ('method',):
                return None
            return self.dotted(full)
        # is a prefix a class / variable of the program ?
        parts = full.split('.')
        for k in range(len(parts) - 1, 0, -1):
            r = self.prog.resolve('.'.join(parts[:k]))
            if r is not None:
                if r[0] in ('class', 'expr', 'func', 'classattr'):
                    return None
                break
        ext = lib.canon(self.prog.external_name(full))
        return mk('glob', ext)

    def super_attr(self, n, st, fr, ctx):
        f = fr
        while f is not None and f.self_name is None:
            f = f.parent
        selfv = st.vars[(f.id, f.self_name)]
        cls = f.cls
        mro = self.mro(cls)
        for q, m, node in mro[1:]:
            if m is None:
                if n.attr == '__init__':
                    return self.fun(Builtin(lambda ev, args, kw, s, nd, sv=selfv, q=q: ev.base_init(sv, q, args, kw, s)))
                if n.attr == '__new__':
                    return self.fun(Builtin(lambda ev, args, kw, s, nd: UNDEF))
                return self.fun(Builtin(lambda ev, args, kw, s, nd, sv=selfv, q=q: ev.generic_method(q + '.' + n.attr, ev.deref(sv, s), args, kw, s, nd)))
            info = self.find_member(q, n.attr)
            if info:
                return self.fun(Bound(self.member_closure(info), selfv))
        return mk('attr', mk('super', selfv), n.attr)

    def base_init(self, selfv, q, args, kw, st):
        if q == 'dict':
            c = t.dict_([])
            for a in args:
                c = t.dict_update(c, self._as_dict(a, st))
            for k, v in kw.items():
                c = t.dict_set(c, const(k), v)
            self.set_content(selfv, c, st)
        elif q == 'list':
            self.set_content(selfv, self.iterval(args[0], st) if args else EMPTY, st)
        return NONE

    def _as_dict(self, a, st):
        c = self.content(a, st)
        if c is None:
            c = self.deref(a, st)
        if c.op == 'rec':
            d = dict(c.a[1])
            if '$c' in d:
                return d['$c']
        return c

    def getattr(self, base, name, st, node=None, fr=None):
        v = st.heap.get((base, name))
        if v is not None:
            return v
        v = self.modstate().heap.get((base, name))
        if v is not None:
            return v
        if name == '__class__':
            c = self.typeof(base)
            return mk('glob', c) if c else mk('call', 'type', (self.deref(base, st),), ())
        if base.op == 'glob':
            q = base.a[0]
            r = self.prog.resolve(q)
            if r and r[0] == 'class':
                info = self.find_member(r[3], name)
                if info:
                    kind = info[0]
                    if kind == 'classmethod':
                        return self.fun(Bound(self.member_closure(info), base))
                    if kind == 'attr':
                        v = self.eval_module_expr(info[1], info[3])
                        if v.op == 'ref' and self.refs[v]['origin'] is None:
                            self.refs[v]['origin'] = info[2] + '.' + name
                        return v
                    return self.member_closure(info)
                if name in ('__name__', '__qualname__'):
                    return const(q.rsplit('.', 1)[1])
                return mk('attr', base, name)
            if r is None:
                return mk('glob', lib.canon(q + '.' + name))
            if r[0] == 'module':
                return self.dotted(q + '.' + name)
            if r[0] == 'func' and name == '__name__':
                return const(q.rsplit('.', 1)[1])
            return mk('attr', base, name)
        if base.op == 'fun':
            o = self.funs[base.a[0]]
            if name == '__name__':
                return mk('attr', self._fn_name(base) if isinstance(o, Closure) and o.qual else mk('glob', 'fn'), name)
            return mk('attr', base, name)
        if base.op == 'ite':
            a, b = base.a[1], base.a[2]
            if a.op in ('ref', 'rec') or b.op in ('ref', 'rec'):
                return ite(base.a[0], self.deref(self.getattr(a, name, st, node, fr), st), self.deref(self.getattr(b, name, st, node, fr), st))
        cls = self.typeof(base)
        if cls and not cls.startswith('list:'):
            if base.op == 'rec':
                for k, v in base.a[1]:
                    if k == name:
                        return v
            info = self.find_member(cls, name)
            if info:
                kind = info[0]
                if kind == 'property':
                    q = info[2] + '.' + name
                    if q in self.opaque:
                        return mk('attr', self.deref(base, st), name)
                    return self.call_value(self.member_closure(info), [base], {}, st, node)
                if kind == 'method':
                    return self.fun(Bound(self.member_closure(info), base))
                if kind == 'classmethod':
                    return self.fun(Bound(self.member_closure(info), mk('glob', cls)))
                if kind == 'staticmethod':
                    return self.member_closure(info)
                if kind == 'attr':
                    v = self.eval_module_expr(info[1], info[3])
                    if v.op == 'ref' and self.refs[v]['origin'] is None:
                        self.refs[v]['origin'] = info[2] + '.' + name
                    return v
        elif self.name_props and name in NAME_PROPS and base.op not in ('ref',):
            info = self.find_member(NAME_PROPS[name], name)
            if info and info[0] == 'property' and (info[2] + '.' + name) not in self.opaque:
                return self.call_value(self.member_closure(info), [base], {}, st, node)
        if base.op == 'ref' and self.refs[base]['kind'] == 'inst' and self.refs[base]['init'] is None:
            return mk('attr', self.deref(base, st), name)
        return lib.attribute(self, self.deref(base, st), name)

    # ------------------------------------------------------------ iteration
    def iterval(self, v, st):
        """the sequence of values obtained by iterating over v"""
        if v.op == 'fun':
            return self.deref(v, st)
        c = self.content(v, st)
        if c is None:
            c = self.deref(v, st)
        if v.op == 'ref' and self.refs[v]['kind'] == 'inst':
            ct = self._as_dict(v, st)
            if self._isdict(v):
                return mk('keys', self.deref(ct, st))
            return ct
        if c.op == 'dict':
            if all(t.is_const(k) or k.op in ('glob', 'call') for k, _ in c.a[0]):
                return t.seq([k for k, _ in c.a[0]])
            return mk('keys', self.deref(c, st))
        if c.op == 'groupby':
            return mk('keys', c)
        if c.op == 'rec':
            d = dict(c.a[1])
            if '$c' in d:
                return d['$c']
            if self._is_tuple_rec(c):
                return t.seq([v for _, v in c.a[1]])
        if c.op == 'set':
            return t.seq(list(c.a[0]))
        if self.typeof(v) and self._isdict(v):
            return mk('keys', self.deref(v, st))
        return c

    def _is_tuple_rec(self, c):
        for q, m, node in self.mro(c.a[0]):
            if m is None:
                if q in ('typing.NamedTuple', 'tuple', 'namedtuple', 'collections.namedtuple'):
                    return True
        return False

    def _isdict(self, v):
        c = self.typeof(v)
        if c is None or c.startswith('list:'):
            return v.op == 'ref' and self.refs[v]['kind'] == 'dict'
        return any(q == 'dict' for q, m, n in self.mro(c))

    def _comp(self, n, st, fr, ctx, kind):
        gens = n.generators
        inner = Frame(fr, fr.module, cls=fr.cls, qual=fr.qual)
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    inner.locals.add(x.id)
        fr.captured = True

        def go(k, s):
            if k == len(gens):
                if kind == 'dict':
                    return t.seq([self.dval(n.key, s, inner, ctx), self.dval(n.value, s, inner, ctx)])
                return self.dval(n.elt, s, inner, ctx)
            g = gens[k]
            S = self.iterval(self.expr(g.iter, s, inner if k else fr, ctx), s)
            es = t.seq_elems(S)
            last = k == len(gens) - 1
            if es is not None and len(es) <= 24:
                out = EMPTY
                for e in es:
                    s2 = s.copy()
                    self.assign_target(g.target, e, s2, inner, ctx)
                    c = land(*[self.cond(f, s2, inner, ctx) for f in g.ifs])
                    v = go(k + 1, s2)
                    one = t.seq_append(EMPTY, v) if last else v
                    if c is TRUE:
                        out = t.concat(out, one)
                    elif c is not FALSE:
                        out = t.concat(out, ite(c, one, EMPTY))
                return out
            S = self.deref(S, s)
            i = t.fresh_idx()
            nn_ = self.seq_len(S)
            s2 = s.copy()
            s2.pc = TRUE
            lctx = Ctx('loop', ctx)
            self.loops.append((i, nn_))
            self.guards.append(s.pc)
            mark = len(self.events)
            try:
                self.assign_target(g.target, self.elem(S, i), s2, inner, lctx)
                c = TRUE
                for f in g.ifs:
                    c = land(c, self._comp_cond(f, s2, inner, lctx))
                s2.pc = land(s2.pc, c)
                save = self.cur_comp_ctx if hasattr(self, 'cur_comp_ctx') else None
                v = self._go_ctx(go, k + 1, s2, lctx)
            finally:
                self.loops.pop()
                self.guards.pop()
            for rc, exc in lctx.raises:
                r = t.tany(nn_, i, rc)
                ctx.raises.append((land(s.pc, r), exc))
                s.pc = land(s.pc, lnot(r))
            if kind == 'first' and last:
                pass
            return mkcollect(nn_, i, v, c) if last else mkflat(nn_, i, v, c)
        return go(0, st)

    def _comp_cond(self, f, s, fr, ctx):
        return self.cond(f, s, fr, ctx)

    def _go_ctx(self, go, k, s, lctx):
        return go(k, s)

    def x_ListComp(self, n, st, fr, ctx):
        return self.new_ref('list', self._comp(n, st, fr, ctx, 'list'))

    def x_GeneratorExp(self, n, st, fr, ctx):
        return self._comp(n, st, fr, ctx, 'gen')

    def x_SetComp(self, n, st, fr, ctx):
        return mk('setof', self._comp(n, st, fr, ctx, 'set'))

    def x_DictComp(self, n, st, fr, ctx):
        c = self._comp(n, st, fr, ctx, 'dict')
        es = t.seq_elems(c)
        if es is not None:
            d = t.dict_([])
            for e in es:
                k, v = t.item(e, ZERO), t.item(e, ONE)
                d = t.dict_set(d, k, v)
            return self.new_ref('dict', d)
        return self.new_ref('dict', dict_of_pairs(c))

    def seq_len(self, S):
        return t.length(S)

    def elem(self, S, i):
        return t.item(S, i)

    # ------------------------------------------------------------ calls
    def x_Call(self, n, st, fr, ctx):
        self.cur_ctx = ctx
        fname = None
        if isinstance(n.func, ast.Name):
            fname = n.func.id
        if self.is_logging(n, fr, st):
            return NONE
        args, kwargs = [], {}
        # receiver first
        recv = None
        if isinstance(n.func, ast.Attribute) and self._dotted(n.func, fr, st) is None and not (
                isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'):
            recv = self.expr(n.func.value, st, fr, ctx)
            fv = None
        else:
            fv = self.expr(n.func, st, fr, ctx)
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.iterval(self.expr(a.value, st, fr, ctx), st)
                es = t.seq_elems(s)
                if es is not None:
                    args.extend(es)
                else:
                    k = self._known_arity(fv, recv, n, st, len(args))
                    if k is not None:
                        args.extend(t.item(s, num(i)) for i in range(k))
                    else:
                        args.append(mk('star', self.deref(s, st)))
            else:
                args.append(self.expr(a, st, fr, ctx))
        splices = []
        for k in n.keywords:
            if k.arg is None:
                d = self._as_dict(self.expr(k.value, st, fr, ctx), st)
                if d.op == 'dict' and all(kk.op == 'const' for kk, _ in d.a[0]):
                    for kk, v in d.a[0]:
                        kwargs[kk.a[0]] = v
                else:
                    splices.append(d)
            else:
                kwargs[k.arg] = self.expr(k.value, st, fr, ctx)
        if splices:
            kwargs['**'] = splices[0] if len(splices) == 1 else t.dict_update(splices[0], splices[1])
        self.cur_ctx = ctx
        if recv is None and fv.op == 'glob' and fv.a[0].startswith('np.') and kwargs.get('out', NONE) is not NONE:
            r = self._ufunc_out(n, fv, args, kwargs, st, fr, ctx)
            if r is not None:
                return r
        if recv is not None:
            return self.call_method(recv, n.func.attr, args, kwargs, st, n, fr, ctx)
        return self.call_value(fv, args, kwargs, st, n, ctx)

    def _ufunc_out(self, n, fv, args, kwargs, st, fr, ctx):
        """np.op(..., out=x): the elements of x take the values of np.op(...), converted to the type of x"""
        x = next((k.value for k in n.keywords if k.arg == 'out'), None)
        if not isinstance(x, (ast.Name, ast.Attribute)):
            return None
        cur = kwargs['out']
        if cur.op == 'ref':
            return None
        rest = {k: v for k, v in kwargs.items() if k not in ('out', 'casting')}
        v = self.call_value(fv, args, rest, st, n, ctx)
        d = lib.dtype_of(self.deref(cur, st))
        if d is not None:
            v = lib.cast(self.deref(v, st), d)
        self.event('aug', st, n, base=cur, op=fv.a[0])
        if isinstance(x, ast.Name):
            self.assign_name(x.id, v, st, fr)
        else:
            b = self.expr(x.value, st, fr, ctx)
            self.event('setattr', st, n, base=b, name=x.attr, value=self.deref(v, st))
            st.heap[(b, x.attr)] = v
        return v

    def _known_arity(self, fv, recv, n, st, k):
        if fv is None:
            return None
        if fv.op == 'fun':
            o = self.funs[fv.a[0]]
        elif fv.op == 'glob':
            r = self.prog.resolve(fv.a[0])
            if not (r and r[0] == 'func'):
                return None
            o = Closure(r[2], r[1], None)
        else:
            return None
        if isinstance(o, Closure) and o.node.args.vararg is None and not o.node.args.defaults:
            return len(o.node.args.args) - k
        return None

    def is_logging(self, n, fr, st):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log') \
                and isinstance(f.value, ast.Name):
            g = fr
            while g is not None:
                v = st.vars.get((g.id, f.value.id))
                if v is not None:
                    ok = v.op == 'call' and v.a[0] == 'logging.getLogger'
                    if ok:
                        self.event('log', st, n, level=f.attr)
                    return ok
                g = g.parent
            v = self.module_name(fr.module, f.value.id)
            if v is not None and (v.op == 'call' and v.a[0] == 'logging.getLogger' or v.op == 'glob' and v.a[0] == 'logging'):
                self.event('log', st, n, level=f.attr)
                return True
        return False

    def call_method(self, recv, name, args, kwargs, st, n, fr, ctx):
        # instance attribute holding a function
        v = st.heap.get((recv, name))
        if v is not None:
            return self.call_value(v, args, kwargs, st, n, ctx)
        if recv.op == 'glob' or recv.op == 'fun':
            fv = self.getattr(recv, name, st, n, fr)
            return self.call_value(fv, args, kwargs, st, n, ctx)
        cls = self.typeof(recv)
        if cls and not cls.startswith('list:'):
            info = self.find_member(cls, name)
            if info:
                fv = self.getattr(recv, name, st, n, fr)
                return self.call_value(fv, args, kwargs, st, n, ctx)
        if recv.op == 'ite' and (recv.a[1].op in ('ref', 'rec', 'fun', 'glob') or recv.a[2].op in ('ref', 'rec', 'fun', 'glob')):
            return self._two(recv.a[0], lambda s: self.call_method(recv.a[1], name, args, kwargs, s, n, fr, ctx),
                             lambda s: self.call_method(recv.a[2], name, args, kwargs, s, n, fr, ctx), st, ctx)
        # d[k].append(v) on a dictionary held by reference: update in place
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Subscript) \
                and name in lib.MUTATORS and recv.op != 'ref':
            base = self.expr(n.func.value.value, st, fr, ctx)
            if base.op == 'ref' and self.refs[base]['kind'] in ('dict', 'list') and not isinstance(n.func.value.slice, ast.Slice):
                k = self.dval(n.func.value.slice, st, fr, ctx)
                tmp = self.new_ref('list', recv if recv.op != 'item' or self.refs[base].get('factory') is None else recv)
                r = self.call_method(tmp, name, args, kwargs, st, n, fr, ctx)
                self.set_content(base, t.dict_set(self.content(base, st), k, self.deref(tmp, st)), st)
                return r
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                and isinstance(n.func.value.func, ast.Attribute) and n.func.value.func.attr == 'setdefault' \
                and n.func.value.args and name in lib.MUTATORS and recv.op != 'ref':
            base = self.expr(n.func.value.func.value, st, fr, ctx)
            if base.op == 'ref' and self.refs[base]['kind'] == 'dict':
                k = self.dval(n.func.value.args[0], st, fr, ctx)
                tmp = self.new_ref('list', recv)
                r = self.call_method(tmp, name, args, kwargs, st, n, fr, ctx)
                self.set_content(base, t.dict_set(self.content(base, st), k, self.deref(tmp, st)), st)
                return r
        return lib.method(self, recv, name, args, kwargs, st, n, ctx)

    def generic_method(self, name, recv, args, kwargs, st, node):
        return mk('mcall', name, (recv,) + tuple(self.deref(a, st) for a in args),
                  tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))

    def call_value(self, fv, args, kwargs, st, node, ctx=None):
        ctx = ctx or getattr(self, 'cur_ctx', None) or Ctx('fn')
        if fv.op == 'fun':
            o = self.funs[fv.a[0]]
            if isinstance(o, Builtin):
                return o.f(self, args, kwargs, st, node)
            if isinstance(o, Bound):
                return self.call_value(o.fn, [o.self] + list(args), kwargs, st, node, ctx)
            if isinstance(o, Partial):
                return self.call_value(o.fn, list(o.args) + list(args), {**o.kwargs, **kwargs}, st, node, ctx)
            if isinstance(o, Closure):
                if o.qual and o.qual in self.opaque:
                    return self.app(o, o.qual, args, kwargs, st, node, ctx)
                return self.call_closure(o, args, kwargs, st, node, ctx)
        if fv.op == 'glob':
            q = fv.a[0]
            r = self.prog.resolve(q)
            if r is not None:
                if r[0] == 'func':
                    f = self.top_function(r)
                    o = self.funs[f.a[0]] if f.op == 'fun' else None
                    if r[3] in self.opaque or q in self.opaque:
                        base = self.modcache[('tbase', r[3])]
                        return self.app(self.funs[base.a[0]], r[3], args, kwargs, st, node, ctx)
                    return self.call_value(f, args, kwargs, st, node, ctx)
                if r[0] == 'class':
                    return self.instantiate(r[3], args, kwargs, st, node, ctx)
            return lib.external(self, q, args, kwargs, st, node, ctx)
        if fv.op == 'ite':
            return self._two(fv.a[0], lambda s: self.call_value(fv.a[1], args, kwargs, s, node, ctx),
                             lambda s: self.call_value(fv.a[2], args, kwargs, s, node, ctx), st, ctx)
        if fv.op == 'lambda' and len(args) == 1 and not kwargs:
            return t.open_binder(fv, 2, self.deref(args[0], st))
        if fv.op == 'ref' and self.refs[fv]['kind'] == 'inst':
            info = self.find_member(self.refs[fv]['cls'], '__call__')
            if info:
                return self.call_value(self.member_closure(info), [fv] + list(args), kwargs, st, node, ctx)
        if fv.op == 'attr' and fv.a[0].op == 'glob':
            pass
        f = self.deref(fv, st)
        if f.op == 'attr':
            return lib.method(self, f.a[0], f.a[1], args, kwargs, st, node, ctx)
        if f.op == 'ite' and fv is not f:
            return self.call_value(f, args, kwargs, st, node, ctx)
        if f.op == 'call' and f.a[0] == 'np.poly1d' and len(f.a[1]) == 1 and not f.a[2] and len(args) == 1:
            return lib.polyval(f.a[1][0], self.deref(args[0], st))
        known = [t.pick(c, f) for c in (st.pc.a[0] if st.pc.op == 'and' else (st.pc,))]
        known = next((x for x in known if x), None)
        if known:
            # the path condition says which of these types is called
            def pick(k, s):
                if k == len(known) - 1:
                    return self.call_value(known[k], args, kwargs, s, node, ctx)
                return self._two(t.eq(f, known[k]), lambda u: self.call_value(known[k], args, kwargs, u, node, ctx),
                                 lambda u: pick(k + 1, u), s, ctx)
            return pick(0, st)
        r = mk('calld', f, tuple(self.deref(a, st) for a in args),
               tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))
        self.event('call', st, node, name='<dynamic>', fn=f, args=tuple(args), kwargs=dict(kwargs), value=r)
        return r

    def top_function(self, r):
        kind, m, node, canon = r
        key = ('top', canon)
        f = self.modcache.get(key)
        if f is None:
            st = State()
            fr = Frame(None, m, qual=m.name)
            d, k = self.eval_defaults(node, st, fr)
            for (loc, fl), v in st.heap.items():
                if loc.op == 'ref' and fl == '$c':
                    self.refs[loc]['init'] = v
            f = self.fun(Closure(node, m, None, defaults=d, kwdefaults=k, qual=canon))
            for x in d + list(k.values()):
                if x.op == 'ref':
                    self.refs[x]['origin'] = 'default of ' + canon
            self.modcache[key] = f
            self.modcache[('tbase', canon)] = f
            for dn in reversed(node.decorator_list):
                f = self.apply_decorator(dn, f, st, fr)
            self._adopt(st)
            self.modcache[key] = f
        return f

    def bind_params(self, o, args, kwargs, st, node):
        """{param: value} following the call rules of Python"""
        a = o.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        star2 = kwargs.pop('**', None)
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                if v.op == 'star':
                    raise Unsupported('star argument of unknown length', node)
                out[names[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            out[a.vararg.arg] = t.seq(extra) if not any(x.op == 'star' for x in extra) else self._starseq(extra)
        elif extra:
            return None
        kwn = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwn:
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return None
        nd = len(o.defaults)
        for i, x in enumerate(names):
            if x not in out:
                j = i - (len(names) - nd)
                dv = o.defaults[j] if j >= 0 else None
                if star2 is not None:
                    base = self.deref(star2, st)
                    if dv is None:
                        out[x] = t.item(base, const(x))
                    else:
                        c = self.contains(const(x), base, st)
                        out[x] = ite(c, t.item(base, const(x)), dv) if c is not FALSE else dv
                elif dv is not None:
                    out[x] = dv
                else:
                    return None
        for x in kwn:
            if x not in out:
                if x in o.kwdefaults:
                    out[x] = o.kwdefaults[x]
                else:
                    return None
        if a.kwarg:
            d = t.dict_([(const(k), v) for k, v in rest.items()])
            if star2 is not None:
                d = t.dict_update(star2, d)
            out[a.kwarg.arg] = self.new_ref('dict', d)
        return out

    def _starseq(self, xs):
        s = EMPTY
        for x in xs:
            s = t.concat(s, x.a[0]) if x.op == 'star' else t.seq_append(s, x)
        return s

    def app(self, o, qual, args, kwargs, st, node, ctx):
        """call of a function kept opaque in this analysis"""
        self.opaque_used.add(qual)
        b = self.bind_params(o, args, kwargs, st, node)
        if b is None:
            self.event('badcall', st, node, name=qual)
            v = mk('badcall', qual)
        else:
            if b.get('inplace') is TRUE and args and args[0].op != 'ref':
                # the object takes the value of the copying form (a property of its own)
                v = mk('app', qual, tuple(sorted((k, FALSE if k == 'inplace' else self.deref(x, st)) for k, x in b.items())))
                self.event('call', st, node, name=qual, args=tuple(args), kwargs=dict(kwargs), bound=b, value=v)
                old = args[0]
                for k, x in list(st.vars.items()):
                    if x is old:
                        st.vars[k] = v
                for k, x in list(st.heap.items()):
                    if x is old:
                        st.heap[k] = v
                return NONE
            if 'inplace' in b and b['inplace'] is not FALSE:
                raise Unsupported('in-place call of %s' % qual, node)
            if qual in self.protos:
                flat = dict(b)
                for k, x in b.items():
                    if x.op == 'ref' and self.refs[x]['kind'] == 'inst':
                        flat.update(('%s.%s' % (k, f), y) for (l, f), y in st.heap.items() if l is x)
                v = cxx.app(self, qual, self.protos[qual], b, st, node)
                self.event('call', st, node, name=qual, args=tuple(args), kwargs=dict(kwargs), bound=b, value=v, flat=flat)
                return v
            v = mk('app', qual, tuple(sorted((k, self.deref(x, st)) for k, x in b.items())))
        self.event('call', st, node, name=qual, args=tuple(args), kwargs=dict(kwargs), bound=b, value=v)
        return v

    def call_closure(self, o, args, kwargs, st, node, ctx=None):
        ctx = ctx or getattr(self, 'cur_ctx', None) or Ctx('fn')
        b = self.bind_params(o, args, kwargs, st, node)
        if b is None:
            self.event('badcall', st, node, name=o.qual or '<lambda>')
            return mk('badcall', o.qual or '<lambda>')
        if self.depth >= self.max_depth or (o.qual and self.stack.count(o.qual) >= 1 and not isinstance(o.node, ast.Lambda)):
            return self.app(o, o.qual or '<local>', args, kwargs, st, node, ctx)
        if isinstance(o.node, ast.Lambda):
            body, names, g, nl = None, set(), set(), set()
        else:
            body = o.node.body
            names, g, nl = assigned_names(body)
        fr = Frame(o.frame, o.module, cls=o.cls or (o.frame.cls if o.frame else None),
                   locals_=names | set(b), qual=o.qual or (o.frame.qual + '.<lambda>' if o.frame else '<lambda>'))
        fr.globals, fr.nonlocals = g, nl
        if o.cls and o.node.args.args if not isinstance(o.node, ast.Lambda) else False:
            fr.self_name = o.node.args.args[0].arg
        if o.qual:
            self.inlined.add(o.qual)
            self.consulted.add(o.module.name)
        outer_pc = st.pc
        s = State(st.vars, st.heap, TRUE)
        s = s.copy()
        for k, v in b.items():
            s.vars[(fr.id, k)] = v
        fctx = Ctx('fn')
        self.guards.append(outer_pc)
        self.stack.append(fr.qual)
        self.depth += 1
        save_ctx = getattr(self, 'cur_ctx', None)
        try:
            if body is None:
                ret = self.expr(o.node.body, s, fr, fctx)
            else:
                if has_yield(body):
                    fr.is_gen = True
                    s.vars[(fr.id, '$yield')] = EMPTY
                self.block(body, s, fr, fctx)
                ret = self.finish(fctx, s, fr)
        finally:
            self.guards.pop()
            self.stack.pop()
            self.depth -= 1
            self.cur_ctx = save_ctx
        # propagate exceptions
        for c, exc in fctx.raises:
            ctx.raises.append((land(outer_pc, c), exc))
            outer_pc = land(outer_pc, lnot(c))
        st.heap = s.heap
        if fr.captured:
            st.vars = s.vars
        else:
            st.vars = {k: v for k, v in s.vars.items() if k[0] != fr.id}
        st.pc = outer_pc
        return ret

    def finish(self, fctx, s, fr):
        """join all return points of a function; leaves the joined heap in s"""
        exits = list(fctx.returns)
        alive = s.pc is not FALSE
        if fr.is_gen:
            vals = [(c, s2.vars[(fr.id, '$yield')], s2) for c, v, s2 in exits]
            if alive:
                vals.append((s.pc, s.vars[(fr.id, '$yield')], s.copy()))
        else:
            vals = list(exits)
            if alive:
                vals.append((s.pc, NONE, s.copy()))
        if not vals:
            s.pc = FALSE
            return UNDEF
        # exits are disjoint: gate on each condition in order
        c, v, acc = vals[-1]
        acc = acc.copy()
        for c2, v2, s2 in reversed(vals[:-1]):
            # the final value is v2 when c2 holds
            v = self.join_value(c2, v2, v, s2, acc)
            acc = self.join_states(c2, s2, acc)
            v, acc = self._fix_joined(v, acc)
        s.vars, s.heap = acc.vars, acc.heap
        s.pc = TRUE
        return v

    def _fix_joined(self, v, acc):
        return v, acc

    # ------------------------------------------------------------ classes
    def instantiate(self, qual, args, kwargs, st, node, ctx):
        mro = self.mro(qual)
        if qual in self.opaque:
            info = self.find_member(qual, '__init__')
            if info:
                f = self.member_closure(info)
                o = self.funs[f.a[0]]
                b = self.bind_params(o, [UNDEF] + list(args), kwargs, st, node)
                if b is None:
                    self.event('badcall', st, node, name=qual)
                    return mk('badcall', qual)
                b.pop(o.node.args.args[0].arg, None)
                v = mk('app', qual, tuple(sorted((k, self.deref(x, st)) for k, x in b.items())))
            else:
                b = None
                v = mk('app', qual, tuple(('%d' % i, self.deref(a, st)) for i, a in enumerate(args)) +
                       tuple(sorted((k, self.deref(x, st)) for k, x in kwargs.items())))
            self.opaque_used.add(qual)
            self.event('call', st, node, name=qual, args=tuple(args), kwargs=dict(kwargs), bound=b, value=v)
            r = self.new_ref('inst', v, cls=qual)
            return r
        base = [q for q, m, nd in mro if m is None]
        if any(b in ('typing.NamedTuple', 'tuple', 'namedtuple', 'collections.namedtuple') for b in base):
            fields, defaults = self.nt_fields(mro)
            if fields is not None:
                vals = dict(zip(fields, args))
                for k, v in kwargs.items():
                    if k not in fields or k in vals:
                        self.event('badcall', st, node, name=qual)
                    vals[k] = v
                for f in fields:
                    if f not in vals:
                        vals[f] = defaults.get(f, UNDEF)
                return mk('rec', qual, tuple((f, self.deref(vals[f], st)) for f in fields))
        if any(b in ('Exception', 'ValueError', 'RuntimeError', 'KeyError', 'BaseException') for b in base):
            return mk('exc', qual, tuple(self.deref(a, st) for a in args))
        r = self.new_ref('inst', None, cls=qual)
        if 'dict' in base:
            self.set_content(r, t.dict_([]), st)
        if 'list' in base:
            self.set_content(r, EMPTY, st)
        info = self.find_member(qual, '__init__')
        if info:
            self.call_value(self.member_closure(info), [r] + list(args), kwargs, st, node, ctx)
        elif 'dict' in base:
            self.base_init(r, 'dict', args, kwargs, st)
        elif 'list' in base:
            self.base_init(r, 'list', args, kwargs, st)
        elif self._is_dataclass(mro):
            fields, defaults = self.nt_fields(mro)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for f in fields:
                st.heap[(r, f)] = vals.get(f, defaults.get(f, UNDEF))
        return r

    def _is_dataclass(self, mro):
        for q, m, nd in mro:
            if m is not None and any('dataclass' in ast.dump(d) for d in nd.decorator_list):
                return True
        return False

    def nt_fields(self, mro):
        for q, m, nd in mro:
            if m is not None:
                fs = [s.target.id for s in nd.body if isinstance(s, ast.AnnAssign)]
                if fs:
                    return fs, {s.target.id: self.eval_module_expr(m, s.value) for s in nd.body
                                if isinstance(s, ast.AnnAssign) and s.value is not None}
            elif isinstance(nd, t.T) and nd.op == 'call':
                spec = nd.a[1][1] if len(nd.a[1]) > 1 else None
                spec = self.deref(spec, State()) if spec is not None else None
                es = t.seq_elems(spec) if spec is not None else None
                if es is not None:
                    return [e.a[0] for e in es], {}
                if spec is not None and spec.op == 'const':
                    return spec.a[0].replace(',', ' ').split(), {}
        return None, {}

    # ------------------------------------------------------------ joins
    def join_value(self, c, a, b, sa, sb):
        if a is b:
            if a.op == 'ref':
                return a
            return a
        ra = a.op == 'ref'
        rb = b.op == 'ref'
        if ra and rb:
            return mk('ite', c, a, b)
        return ite(c, a, b) if not (ra or rb or a.op == 'fun' or b.op == 'fun') else \
            (a if c is TRUE else b if c is FALSE else mk('ite', c, a, b))

    def join_states(self, c, a, b):
        out = State({}, {}, TRUE)
        for k in a.vars.keys() | b.vars.keys():
            x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
            out.vars[k] = x if x is y else self.join_value(c, x, y, a, b)
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                out.heap[k] = x
                continue
            x = self._initial(k, a) if x is None else x
            y = self._initial(k, b) if y is None else y
            out.heap[k] = self.join_value(c, x, y, a, b)
        # variables holding different list/dict references: merge into one fresh object
        for k, v in list(out.vars.items()):
            if v.op == 'ite' and v.a[1].op == 'ref' and v.a[2].op == 'ref':
                out.vars[k] = self._merge_refs(v, a, b, out)
        for k, v in list(out.heap.items()):
            if v.op == 'ite' and v.a[1].op == 'ref' and v.a[2].op == 'ref':
                out.heap[k] = self._merge_refs(v, a, b, out)
        return out

    def _initial(self, k, s):
        loc, f = k
        if f == '$c':
            c = self.content(loc, s)
            return c if c is not None else UNDEF
        if loc.op == 'ref':
            return UNDEF
        return mk('attr', loc, f)

    def _merge_refs(self, v, a, b, out):
        c, x, y = v.a
        ix, iy = self.refs[x], self.refs[y]
        if ix['kind'] == 'buf' or ix['kind'] != iy['kind'] or ix['cls'] != iy['cls']:
            return v
        key = ('merge', v, id(out))
        if key in self.modcache:
            return self.modcache[key]
        r = self.new_ref(ix['kind'], None, cls=ix['cls'])
        cx, cy = self.content(x, a), self.content(y, b)
        if cx is not None and cy is not None:
            self.refs[r]['init'] = None
            out.heap[(r, '$c')] = self.join_value(c, cx, cy, a, b)
        if ix['kind'] == 'inst':
            fs = {f for (l, f) in a.heap if l is x} | {f for (l, f) in b.heap if l is y}
            for f in fs - {'$c'}:
                out.heap[(r, f)] = self.join_value(c, a.heap.get((x, f), UNDEF), b.heap.get((y, f), UNDEF), a, b)
        self.modcache[key] = r
        return r

    def join(self, c, a, b, st, ctx, before, values=None):
        """join the two branch states into st"""
        pc0 = st.pc
        da, db = a.pc is FALSE, b.pc is FALSE
        if da and db:
            st.vars, st.heap, st.pc = a.vars, a.heap, FALSE
            return UNDEF if values else None
        if da:
            st.vars, st.heap = b.vars, b.heap
            v = values[1] if values else None
        elif db:
            st.vars, st.heap = a.vars, a.heap
            v = values[0] if values else None
        else:
            o = self.join_states(c, a, b)
            st.vars, st.heap = o.vars, o.heap
            if values:
                v = self.join_value(c, values[0], values[1], a, b)
                if v.op == 'ite' and v.a[1].op == 'ref' and v.a[2].op == 'ref':
                    v = self._merge_refs(v, a, b, st)
                elif v.op == 'ite' and (v.a[1].op == 'ref' or v.a[2].op == 'ref') and 'buf' not in [self.refs[y]['kind'] for y in v.a[1:] if y.op == 'ref'] and v.a[1] is not NONE and v.a[2] is not NONE:
                    v = ite(c, self.deref(values[0], a), self.deref(values[1], b))
            else:
                v = None
        pc = pc0
        for e in ctx.exit_conds(before):
            pc = land(pc, lnot(e))
        st.pc = pc
        return v

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr, ctx):
        for s in body:
            if st.pc is FALSE:
                return
            self.stmt(s, st, fr, ctx)

    def stmt(self, n, st, fr, ctx):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(n).__name__, n)
        m(n, st, fr, ctx)

    def s_Expr(self, n, st, fr, ctx):
        v = n.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self.expr(v, st, fr, ctx)
            return
        self.expr(v, st, fr, ctx)

    def x_Yield(self, n, st, fr, ctx):
        raw = self.expr(n.value, st, fr, ctx) if n.value is not None else NONE
        v = self.deref(raw, st)
        f = fr
        k = (f.id, '$yield')
        st.vars[k] = t.seq_append(st.vars[k], v)
        self.event('yield', st, n, value=v, raw=raw)
        return UNDEF

    def x_YieldFrom(self, n, st, fr, ctx):
        v = self.deref(self.iterval(self.expr(n.value, st, fr, ctx), st), st)
        k = (fr.id, '$yield')
        st.vars[k] = t.concat(st.vars[k], v)
        return UNDEF

    def s_Pass(self, n, st, fr, ctx):
        pass

    def s_Assert(self, n, st, fr, ctx):
        c = self.cond(n.test, st, fr, ctx)
        self.do_raise(land(st.pc, lnot(c)), 'AssertionError', st, ctx, n, None)
        st.pc = land(st.pc, c)

    def s_Global(self, n, st, fr, ctx):
        pass
    s_Nonlocal = s_Global

    def s_Import(self, n, st, fr, ctx):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.vars[(fr.id, nm)] = self.dotted(full)

    def s_ImportFrom(self, n, st, fr, ctx):
        base = fr.module._rel(n)
        for a in n.names:
            st.vars[(fr.id, a.asname or a.name)] = self.dotted(base + '.' + a.name)

    def s_Delete(self, n, st, fr, ctx):
        for x in n.targets:
            if isinstance(x, ast.Subscript):
                b = self.expr(x.value, st, fr, ctx)
                k = self.dval(x.slice, st, fr, ctx)
                self.mutation(b, 'del', (k,), st, n)
                c = self.content(b, st)
                if c is not None and c.op == 'dict' and t.is_const(k) and all(t.is_const(kk) for kk, _ in c.a[0]):
                    self.set_content(b, mk('dict', tuple((kk, v) for kk, v in c.a[0] if kk is not k)), st)
                elif c is not None:
                    self.set_content(b, mk('without', c, k), st)

    def s_FunctionDef(self, n, st, fr, ctx):
        fr.captured = True
        d, k = self.eval_defaults(n, st, fr)
        f = self.fun(Closure(n, fr.module, fr, cls=fr.cls, defaults=d, kwdefaults=k))
        for dn in reversed(n.decorator_list):
            f = self.apply_decorator(dn, f, st, fr)
        self.assign_name(n.name, f, st, fr)

    def s_ClassDef(self, n, st, fr, ctx):
        raise Unsupported('local class', n)

    def s_Return(self, n, st, fr, ctx):
        v = self.expr(n.value, st, fr, ctx) if n.value is not None else NONE
        if st.pc is FALSE:
            return
        ctx.returns.append((st.pc, v, st.copy()))
        st.pc = FALSE

    def s_Break(self, n, st, fr, ctx):
        ctx.breaks.append((st.pc, st.copy()))
        st.pc = FALSE

    def s_Continue(self, n, st, fr, ctx):
        ctx.continues.append((st.pc, st.copy()))
        st.pc = FALSE

    def do_raise(self, cond, exc, st, ctx, n, value):
        if cond is FALSE:
            return
        s2 = State(st.vars, st.heap, cond)
        self.event('raise', s2, n, exc=exc, value=value)
        ctx.raises.append((cond, exc))

    def s_Raise(self, n, st, fr, ctx):
        exc, v = 'reraise', None
        if n.exc is not None:
            v = self.expr(n.exc, st, fr, ctx)
            v = self.deref(v, st)
            if v.op == 'glob':
                exc = v.a[0]
            elif v.op in ('exc', 'call', 'app'):
                exc = v.a[0]
            else:
                exc = 'dynamic'
        self.do_raise(st.pc, exc.rsplit('.', 1)[-1], st, ctx, n, v)
        st.pc = FALSE

    def s_If(self, n, st, fr, ctx):
        c = self.cond(n.test, st, fr, ctx)
        if st.pc is FALSE:
            return
        c = t.assume(c, st.pc) if st.pc is not TRUE else c
        if c is TRUE:
            return self.block(n.body, st, fr, ctx)
        if c is FALSE:
            return self.block(n.orelse, st, fr, ctx)
        a, b = st.copy(), st.copy()
        before = ctx.n_exits()
        a.pc, b.pc = land(st.pc, c), land(st.pc, lnot(c))
        self.block(n.body, a, fr, ctx)
        self.block(n.orelse, b, fr, ctx)
        self.join(c, a, b, st, ctx, before)

    def s_Assign(self, n, st, fr, ctx):
        v = self.expr(n.value, st, fr, ctx)
        for tg in n.targets:
            self.assign_target(tg, v, st, fr, ctx)

    def s_AnnAssign(self, n, st, fr, ctx):
        if n.value is not None:
            self.assign_target(n.target, self.expr(n.value, st, fr, ctx), st, fr, ctx)

    def assign_target(self, tg, v, st, fr, ctx):
        if isinstance(tg, ast.Name):
            self.assign_name(tg.id, v, st, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            s = v
            if v.op == 'ref' or v.op == 'rec':
                s = self.iterval(v, st)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(tg.elts)
                for j, e in enumerate(tg.elts):
                    if j < i:
                        self.assign_target(e, t.item(s, num(j)), st, fr, ctx)
                    elif j == i:
                        hi = NONE if n - 1 - i == 0 else num(-(n - 1 - i))
                        self.assign_target(e.value, self.new_ref('list', t.slice_(s, num(i), hi, NONE)), st, fr, ctx)
                    else:
                        self.assign_target(e, t.item(s, num(j - n)), st, fr, ctx)
                return
            for i, e in enumerate(tg.elts):
                if s.op == 'ite' or s.op != 'seq':
                    x = t.item(s if s.op != 'ref' else self.content(s, st), num(i))
                else:
                    x = t.item(s, num(i))
                self.assign_target(e, x, st, fr, ctx)
        elif isinstance(tg, ast.Attribute):
            b = self.expr(tg.value, st, fr, ctx)
            self.event('setattr', st, tg, base=b, name=tg.attr, value=self.deref(v, st))
            if b.op == 'ite' and b.a[1].op == 'ref':
                raise Unsupported('attribute store through a merged reference', tg)
            st.heap[(b, tg.attr)] = v
        elif isinstance(tg, ast.Subscript):
            b = self.expr(tg.value, st, fr, ctx)
            if isinstance(tg.slice, ast.Slice):
                k = self.x_Slice(tg.slice, st, fr, ctx)
            else:
                k = self.dval(tg.slice, st, fr, ctx)
            self.setitem(b, k, v, st, tg)
        elif isinstance(tg, ast.Starred):
            self.assign_target(tg.value, v, st, fr, ctx)
        else:
            raise Unsupported('target ' + type(tg).__name__, tg)

    def setitem(self, b, k, v, st, node):
        self.event('setitem', st, node, base=b, key=k, value=self.deref(v, st))
        c = self.content(b, st)
        if c is None:
            c = t.dict_([])
        if c.op == 'seq' and t.seq_elems(c) is not None and t.is_num(k):
            es = t.seq_elems(c)
            i = int(k.a[0])
            if -len(es) <= i < len(es):
                es = list(es)
                es[i] = v
                self.set_content(b, t.seq(es), st)
                return
        self.set_content(b, t.dict_set(c, k, v), st)

    def mutation(self, b, how, args, st, node):
        self.event('mutate', st, node, base=b, how=how, args=tuple(args))

    def s_AugAssign(self, n, st, fr, ctx):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id, st, fr, n)
            v = self.expr(n.value, st, fr, ctx)
            if cur.op == 'ref' and self.refs[cur]['kind'] == 'list' and op == 'Add':
                self.mutation(cur, '+=', (self.deref(v, st),), st, n)
                self.set_content(cur, t.concat(self.content(cur, st), self.iterval(v, st)), st)
                return
            if cur.op == 'ref' and self.refs[cur]['kind'] == 'dict' and op == 'BitOr':
                self.mutation(cur, '|=', (self.deref(v, st),), st, n)
                self.set_content(cur, t.dict_update(self.content(cur, st), self._as_dict(v, st)), st)
                return
            self.event('aug', st, n, base=cur, op=op)
            self.assign_name(n.target.id, self._augmented(op, cur, v, st, n), st, fr)
        elif isinstance(n.target, ast.Attribute):
            b = self.expr(n.target.value, st, fr, ctx)
            cur = self.getattr(b, n.target.attr, st, n, fr)
            v = self.expr(n.value, st, fr, ctx)
            if cur.op == 'ref' and self.refs[cur]['kind'] == 'list' and op == 'Add':
                self.set_content(cur, t.concat(self.content(cur, st), self.iterval(v, st)), st)
                return
            self.event('aug', st, n, base=cur, op=op)
            r = self._augmented(op, cur, v, st, n)
            self.event('setattr', st, n, base=b, name=n.target.attr, value=self.deref(r, st))
            st.heap[(b, n.target.attr)] = r
        elif isinstance(n.target, ast.Subscript):
            b = self.expr(n.target.value, st, fr, ctx)
            k = self.x_Slice(n.target.slice, st, fr, ctx) if isinstance(n.target.slice, ast.Slice) else self.dval(n.target.slice, st, fr, ctx)
            cur = self.subscript(b, k, st, n)
            v = self.expr(n.value, st, fr, ctx)
            self.event('aug', st, n, base=cur, op=op)
            self.setitem(b, k, self.binop(op, cur, v, st, n), st, n)

    def _augmented(self, op, cur, v, st, n):
        r = self.binop(op, cur, v, st, n)
        d = lib.dtype_of(self.deref(cur, st))
        if d is not None:
            r = lib.cast(self.deref(r, st), d)      # in-place array operations keep the element type
        return r

    def s_With(self, n, st, fr, ctx):
        outs = []
        for it in n.items:
            v = self.expr(it.context_expr, st, fr, ctx)
            if it.optional_vars is not None:
                self.assign_target(it.optional_vars, v, st, fr, ctx)
            outs.append((v, it))
        self.block(n.body, st, fr, ctx)
        for v, it in reversed(outs):
            self.event('exit', st, n, base=v)

    def s_Try(self, n, st, fr, ctx):
        """body, handlers, else, finally.  The handler runs when the body raises one of its explicit exceptions (their
        conditions are known) or when one of the calls it makes raises (an uninterpreted condition)"""
        types = []
        for h in n.handlers:
            if h.type is None:
                types.append(('BaseException',))
            else:
                v = self.expr(h.type, st, fr, ctx)
                es = t.seq_elems(v)
                types.append(tuple(x.a[0].rsplit('.', 1)[-1] if x.op == 'glob' else '?' for x in (es if es is not None else [v])))
        start = st.copy()
        mark = len(self.events)
        inner = Ctx(ctx.kind, ctx)
        allt = tuple(x for y in types for x in y)
        self.tries.append((allt, tuple('%s:%d' % (getattr(n, '_file', '?'), n.lineno) for _ in (0,)), len(n.handlers), len(self.loops)))
        try:
            self.block(n.body, st, fr, inner)
        finally:
            self.tries.pop()
        catch_all = any(x in ('BaseException', 'Exception') for x in allt)
        implicit = self._may_raise(mark)
        caught = []
        for c, exc in inner.raises:
            h = self._handler(types, exc)
            if h is None:
                ctx.raises.append((c, exc))
            else:
                caught.append((c, h))
        ctx.returns.extend(inner.returns)
        ctx.breaks.extend(inner.breaks)
        ctx.continues.extend(inner.continues)
        before = ctx.n_exits()
        if n.handlers and implicit is not None:
            at = mk('raises', implicit, tuple(sorted(set(allt))))
            caught.append((land(start.pc, at), len(types) - 1 if len(types) == 1 else None))
        if n.orelse:
            self.block(n.orelse, st, fr, ctx)
        for c, h in caught:
            hs = [h] if h is not None else range(len(types))
            for hi in hs:
                cond = c if h is not None else land(c, mk('excis', types[hi]))
                s2 = start.copy()
                s2.pc = cond
                hn = n.handlers[hi]
                if hn.name:
                    s2.vars[(fr.id, hn.name)] = mk('exception', types[hi])
                self.event('handler', s2, hn, types=types[hi], raises=c)
                b2 = ctx.n_exits()
                self.block(hn.body, s2, fr, ctx)
                ok = st.copy()
                alive = s2.pc is not FALSE
                if st.pc is FALSE and alive:
                    st.set(s2)
                elif alive:
                    o = self.join_states(cond, s2, ok)
                    st.vars, st.heap = o.vars, o.heap
                    st.pc = lor(land(st.pc, lnot(cond)), s2.pc)
                else:
                    st.pc = land(st.pc, lnot(cond))
        self.block(n.finalbody, st, fr, ctx)
    s_TryStar = s_Try

    def _may_raise(self, mark):
        calls = []
        for e in self.events[mark:]:
            if e.kind == 'call' and isinstance(e.data.get('value'), t.T):
                calls.append(e.data['value'])
        if not calls:
            return None
        return mk('oneof', tuple(sorted(set(calls), key=lambda x: x.dg)))

    PARENT = {'ValueError': ('Exception',), 'RuntimeError': ('Exception',), 'KeyError': ('LookupError', 'Exception'),
              'IndexError': ('LookupError', 'Exception'), 'TypeError': ('Exception',), 'AssertionError': ('Exception',)}

    def _handler(self, types, exc):
        for i, ts in enumerate(types):
            for x in ts:
                if x in ('BaseException', 'Exception') or x == exc or x in self.PARENT.get(exc, ()):
                    return i
        return None

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fr, ctx):
        it = self.expr(n.iter, st, fr, ctx)
        S = self.iterval(it, st)
        es = t.seq_elems(S)
        if S.op == 'enum' and t.seq_elems(S.a[0]) is not None:
            es = [t.seq([t.add(num(i), S.a[1]), x]) for i, x in enumerate(t.seq_elems(S.a[0]))]
        hasb = any(isinstance(x, (ast.Break,)) for x in ast.walk(n))
        if es is not None and len(es) <= 24 and not hasb and not n.orelse:
            for e in es:
                if st.pc is FALSE:
                    return
                lctx = Ctx('loop', ctx)
                self.assign_target(n.target, e, st, fr, ctx)
                before = st.copy()
                self.block(n.body, st, fr, lctx)
                for c, exc in lctx.raises:
                    ctx.raises.append((c, exc))
                ctx.returns.extend(lctx.returns)
                for c, s2 in lctx.continues:
                    if st.pc is FALSE:
                        st.set(s2)
                    else:
                        o = self.join_states(c, s2, st)
                        st.vars, st.heap = o.vars, o.heap
                        st.pc = lor(st.pc, c)
            return
        S = self.deref(S, st)
        if S.op == 'comb2':
            X = S.a[0]
            N = self.seq_len(X)

            def outer(i, s, c1):
                def inner(j, s2, c2):
                    self.assign_target(n.target, t.seq([t.item(X, i), t.item(X, t.add(t.add(i, ONE), j))]), s2, fr, c2)
                    self.block(n.body, s2, fr, c2)
                self.loop(t.sub(t.sub(N, ONE), i), inner, s, fr, c1, n)
            self.loop(N, outer, st, fr, ctx, n)
            return

        stmts, count = n.body, self.seq_len(S)
        if isinstance(stmts[-1], ast.Break) and not any(_own_exit(x) for x in stmts[:-1]) and not n.orelse:
            stmts, count = stmts[:-1], t.tmin(ONE, count)

        def body(i, s, lctx):
            self.assign_target(n.target, self.elem(S, i), s, fr, lctx)
            self.block(stmts, s, fr, lctx)
        self.loop(count, body, st, fr, ctx, n)
        if n.orelse and any(_own_exit(x) for x in n.body):
            raise Unsupported('else of a loop with exits', n)
        if n.orelse:
            self.block(n.orelse, st, fr, ctx)

    def loop(self, n, body, st, fr, ctx, node, while_cond=None):
        """analyse a loop of n iterations (n None: until while_cond fails) and leave the summarised state in st"""
        base_events = len(self.events)
        refmark = next(self.nref)
        phis = {}           # location -> (phi, kind)
        solved = {}         # location -> function idx -> term (closed form at the start of iteration idx)
        pc0 = st.pc
        for attempt in range(30):
            del self.events[base_events:]
            idx = t.fresh_idx()
            s = st.copy()
            s.pc = TRUE
            lctx = Ctx('loop', ctx)
            start = {}
            for loc, (phi, kind, name) in phis.items():
                v = solved[loc](idx) if loc in solved else phi
                if kind == 'ref':
                    r = self.new_ref(*self._refproto[loc])
                    if self.refs[r]['kind'] == 'inst':
                        raise Unsupported('loop-carried object', node)
                    s.heap[(r, '$c')] = v
                    self._put(s, loc, r)
                else:
                    self._put(s, loc, v)
                start[loc] = v
            self.loops.append((idx, n))
            self.guards.append(pc0)
            try:
                wc = while_cond(s, lctx) if while_cond is not None else TRUE
                exit_c = lnot(wc)
                sx = None
                if while_cond is not None:
                    sx = s.copy()
                    s.pc = land(s.pc, wc)
                if s.pc is not FALSE:
                    body(idx, s, lctx)
            finally:
                self.loops.pop()
                self.guards.pop()
            # end-of-iteration state: fallthrough joined with continues
            end = s
            for c, s2 in lctx.continues:
                if end.pc is FALSE:
                    end = s2.copy()
                else:
                    o = self.join_states(c, s2, end)
                    o.pc = lor(end.pc, c)
                    end = o
            # changed locations
            changed = False
            for loc in self._locations(st, end, lctx):
                if loc in phis:
                    continue
                before = self._get(st, loc)
                after = self._get(end, loc) if end.pc is not FALSE else before
                others = [self._get(s2, loc) for _, s2 in lctx.breaks]
                if after is not before and after is not None or any(x is not before for x in others):
                    self._add_phi(phis, loc, before, st)
                    changed = True
            if changed:
                continue
            # try to solve recurrences with a closed form
            newly = False
            nexts = {}
            for loc, (phi, kind, name) in phis.items():
                v = self._get(end, loc) if end.pc is not FALSE else UNDEF
                if v is None:
                    v = UNDEF
                nexts[loc] = self.deref(v, end) if kind == 'ref' or True else v
            allphi = {p for p, k, nm in phis.values()}
            demote = [loc for loc, (phi, kind, name) in phis.items() if phi in t.INT_ATOMS and not t.is_int(nexts[loc])
                      and nexts[loc] is not UNDEF]
            if demote:
                for loc in demote:
                    phi, kind, name = phis[loc]
                    phis[loc] = (mk('phi', next(t._uid), str(name)), kind, name)
                    solved.clear()
                continue
            for loc, (phi, kind, name) in phis.items():
                if loc in solved:
                    continue
                nx = nexts[loc]
                if lctx.breaks and False:
                    break
                init = self._init(loc, kind, st)
                cf = self._closed_form(phi, nx, init, idx, allphi, kind)
                if cf is not None:
                    solved[loc] = cf
                    newly = True
                    break
            if newly:
                continue
            # while loop with a counter: becomes a counted loop
            if while_cond is not None and n is None and not isinstance(wc, type(None)):
                cnt = self._trip_count(wc, idx, allphi)
                if cnt is not None:
                    return self.loop(cnt, body, st, fr, ctx, node, None)
            break
        else:
            raise Unsupported('loop did not stabilise', node)
        self._summarise(n, idx, phis, solved, nexts, st, end, lctx, ctx, exit_c if while_cond is not None else FALSE,
                        base_events, fr, node, sx)

    _refproto = {}

    def _add_phi(self, phis, loc, before, st):
        kind = 'val'
        if before is not None and before.op == 'ref' and loc[0] == 'v':
            kind = 'ref'
            info = self.refs[before]
            self._refproto[loc] = (info['kind'], None, info['cls'])
            if info['kind'] in ('inst', 'buf'):
                kind = 'val'
        if before is not None and before.op == 'ref' and loc[0] == 'h' and loc[1][1] != '$c':
            info = self.refs[before]
            if info['kind'] not in ('inst', 'buf'):
                kind = 'ref'
                self._refproto[loc] = (info['kind'], None, info['cls'])
        name = loc[1][1]
        phi = mk('phi', next(t._uid), str(name))
        if kind == 'val' and before is not None and t.is_int(before):
            t.INT_ATOMS.add(phi)
        phis[loc] = (phi, kind, name)

    def _get(self, s, loc):
        if loc[0] == 'v':
            return s.vars.get(loc[1])
        v = s.heap.get(loc[1])
        if v is None:
            if loc[1][1] == '$c':
                return self.content(loc[1][0], s)
            if loc[1][0].op != 'ref':
                return mk('attr', loc[1][0], loc[1][1])
        return v

    def _put(self, s, loc, v):
        if loc[0] == 'v':
            s.vars[loc[1]] = v
        else:
            s.heap[loc[1]] = v

    def _init(self, loc, kind, st):
        v = self._get(st, loc)
        if v is None:
            return UNDEF
        return self.deref(v, st)

    def _locations(self, st, end, lctx):
        out = []
        keys = set(end.vars)
        for _, s2 in lctx.breaks:
            keys |= set(s2.vars)
        for k in keys:
            if k in st.vars:
                out.append(('v', k))
        hk = set(end.heap)
        for _, s2 in lctx.breaks:
            hk |= set(s2.heap)
        for k in hk:
            loc = k[0]
            if loc.op == 'ref':
                # only objects that existed before the loop
                if k in st.heap or (k[1] == '$c' and self.refs[loc]['init'] is not None and self._older(loc, st)):
                    out.append(('h', k))
                elif self._older(loc, st):
                    out.append(('h', k))
            else:
                if loc.free and any(f[0] == 'idx' for f in loc.free):
                    continue    # per-element effects are reported as events
                out.append(('h', k))
        return out

    def _older(self, ref, st):
        return ref.a[0] < self._cur_mark(st)

    def _cur_mark(self, st):
        # references are numbered; anything reachable from st is older than the loop
        return getattr(self, '_marks', {}).get(id(st), 0) or self._mark_state(st)

    def _mark_state(self, st):
        m = 0
        for v in list(st.vars.values()) + list(st.heap.values()) + [k[0] for k in st.heap]:
            stack = [v]
            while stack:
                x = stack.pop()
                if x.op == 'ref':
                    m = max(m, x.a[0] + 1)
                elif self.has_ref(x):
                    stack.extend(t._walk_children(x.a))
        return m

    def _closed_form(self, phi, nx, init, idx, allphi, kind):
        if nx is phi:
            return lambda i, v=init: v
        d = t.sub(nx, phi) if not (t.is_seqlike(nx) or t.is_bool(nx) or nx.op in ('dict', 'undef', 'ref', 'const', 'fun', 'rec', 'glob') or nx.op == 'padd') else None
        if nx.op == 'padd':
            b, k = t.ptr_split(nx)
            if b is phi:
                d = k
            else:
                d = None
            if d is not None and not (self._free_phis(d) & allphi):
                def f(i, d=d, idx=idx, init=init):
                    j = t.fresh_idx()
                    return t.padd(init, t.tsum(i, j, t.subst(d, {idx: j})))
                return f
            return None
        if d is not None and not (self._free_phis(d) & allphi):
            if d.op == 'ite' or t.contains(d, phi):
                pass
            if not t.contains(d, phi):
                def f(i, d=d, idx=idx, init=init):
                    j = t.fresh_idx()
                    return t.add(init, t.tsum(i, j, t.subst(d, {idx: j})))
                return f
        # multiplied by the same factor every time
        if nx.op == 'poly':
            c = t.subst(nx, {phi: ONE})
            if not (self._free_phis(c) & allphi) and not t.contains(c, idx) and t.mul(c, phi) is nx:
                return lambda i, c=c, init=init: t.mul(init, t.power(c, i))
        if nx.op == 'call' and nx.a[0] in ('fp*', 'fp+') and phi in nx.a[1]:
            c = nx.a[1][1] if nx.a[1][0] is phi else nx.a[1][0]
            if not (self._free_phis(c) & allphi) and not t.contains(c, idx):
                return lambda i, c=c, init=init, f=nx.a[0]: init if i is ZERO else mk('call', f + ' repeated', (init, c, i), ())
        return None

    def _free_phis(self, x):
        return {mk(*f) for f in x.free if f[0] == 'phi'}

    def _trip_count(self, wc, idx, allphi):
        """number of iterations when the condition is a linear inequality in the loop index"""
        if wc.op not in ('pos', 'nn', 'not', 'and'):
            return None
        if self._free_phis(wc) & allphi:
            return None
        if wc.op == 'and':     # stops at the first one that fails
            ns = [self._trip_count(c, idx, allphi) for c in wc.a[0]] if all(c.op in ('pos', 'nn') for c in wc.a[0]) else [None]
            if None in ns:
                return None
            ps = [t.to_poly(n) for n in ns]
            common = t.from_poly({m: c for m, c in ps[0].items() if all(p.get(m) == c for p in ps)})
            return t.add(common, t.mkminmax('min', [t.sub(n, common) for n in ns]))
        if wc.op == 'not':
            return self._steps_to(wc.a[0], idx)
        p = wc.a[0]
        lin = t.sub(t.subst(p, {idx: t.add(idx, ONE)}), p)
        if not t.is_num(lin) or lin.a[0] >= 0:
            return None
        c = t.subst(p, {idx: ZERO})
        step = num(-lin.a[0])
        if wc.op == 'pos':     # c - step*i > 0  ->  ceil(c/step)
            n = t.ceil(t.div(c, step))
        else:
            n = t.add(t.floor(t.div(c, step)), ONE)
        return ZERO if t.is_num(n) and n.a[0] < 0 else n

    @staticmethod
    def _steps_to(c, idx):
        """number of iterations until c (an equality) holds, when every step moves by one towards it"""
        if c.op != 'eq':
            return None
        p = t.sub(c.a[0], c.a[1])
        step = t.sub(t.subst(p, {idx: t.add(idx, ONE)}), p)
        if not t.is_num(step) or step.a[0] not in (1, -1):
            return None
        n = t.mul(t.subst(p, {idx: ZERO}), num(-step.a[0]))
        # a start beyond the end is a loop that does not end there
        ok = all(k >= 0 and all(e > 0 and (t.is_nat(f) or f.op in ('len', 'idx')) for f, e in m) for m, k in t.to_poly(n).items())
        return n if ok and t.is_int(n) else None

    def _summarise(self, n, idx, phis, solved, nexts, st, end, lctx, ctx, exit_c, base_events, fr, node, sx):
        pc0 = st.pc
        allphi = {p: loc for loc, (p, k, nm) in phis.items()}
        unsolved = [loc for loc in phis if loc not in solved]
        brk = lor(*[c for c, s2 in lctx.breaks])
        ret = lor(*[c for c, v, s2 in lctx.returns])
        rai = lor(*[c for c, e in lctx.raises])
        results = {}
        start_pc_counted = n is not None
        simple_exits = not ((self._free_phis(brk) | self._free_phis(ret) | self._free_phis(rai)) & set(allphi))
        early = lor(brk, ret)
        if start_pc_counted and simple_exits:
            # iterations before the first early exit
            if early is FALSE:
                ntot = n
            else:
                ntot = t.bind('first', idx, (n,), (early, idx)) if False else mk('firsthit', n, t.bind('lambda', idx, (num(1),), (early,)))
                t.INT_ATOMS.add(ntot)
            for loc in phis:
                phi, kind, name = phis[loc]
                init = self._init(loc, kind, st)
                if loc in solved and not lctx.breaks:
                    results[loc] = solved[loc](ntot)
                    continue
                if loc in solved:
                    results[loc] = ('brk', solved[loc])
                    continue
                v = self._recognise(phi, nexts[loc], init, idx, n, ntot, allphi, early)
                if v is not None:
                    results[loc] = v if not lctx.breaks else ('brk', v)
            # break states
            if lctx.breaks:
                found = t.tany(n, idx, brk)
                for loc in phis:
                    phi, kind, name = phis[loc]
                    init = self._init(loc, kind, st)
                    r = results.get(loc)
                    if r is None:
                        continue
                    pre = r[1]
                    # value at the break point: join over break states, evaluated at the first hit
                    atbrk = None
                    for c, s2 in reversed(lctx.breaks):
                        bv = self.deref(self._get(s2, loc) or UNDEF, s2)
                        atbrk = bv if atbrk is None else ite(c, bv, atbrk)
                    if callable(pre) and (atbrk is phi or atbrk is pre(idx)):
                        results[loc] = pre(ntot)     # unchanged in the breaking iteration
                    elif callable(pre):
                        endv = pre(n)
                        atb = t.subst(atbrk, {idx: ntot})
                        results[loc] = ite(found, atb, endv)
                    elif self._free_phis(atbrk) & set(allphi):
                        if atbrk is phi:
                            results[loc] = pre       # unchanged in the breaking iteration
                        else:
                            results.pop(loc)
                    else:
                        if nexts[loc] is phi:
                            endv = init
                        else:
                            endv = pre
                        results[loc] = ite(found, t.subst(atbrk, {idx: ntot}), endv)
        missing = [loc for loc in phis if loc not in results]
        submap = {}
        if missing or not (start_pc_counted and simple_exits):
            submap = self._general(n, idx, phis, solved, nexts, st, lctx, exit_c, missing if start_pc_counted and simple_exits else list(phis), results, end)
        # events of the body: replace solved phis (already closed forms) and general ones
        if submap:
            for e in self.events[base_events:]:
                self._subst_event(e, submap)
        if early is not FALSE and simple_exits and n is not None:
            for e in self.events[base_events:]:
                e.hits += ((idx, ntot, early),)
        out = st.copy()
        for loc, v in results.items():
            phi, kind, name = phis[loc]
            if isinstance(v, tuple):
                v = v[1](n) if callable(v[1]) else v[1]
            if kind == 'ref':
                r = self.new_ref(*self._refproto[loc])
                out.heap[(r, '$c')] = v
                self._put(out, loc, r)
            else:
                self._put(out, loc, v)
        # variables created inside the loop keep their last value
        lastn = n
        for k, v in end.vars.items():
            if k not in st.vars and (k[0] == fr.id or isinstance(k[0], str)) and end.pc is not FALSE:
                dv = self.deref(v, end)
                if submap:
                    dv = t.subst(dv, submap)
                if n is not None:
                    lv = t.subst(dv, {idx: t.sub(n, ONE)})
                else:
                    lv = dv
                if lctx.breaks and n is not None:
                    bv = None
                    for c, s2 in lctx.breaks:
                        if k in s2.vars:
                            bv = self.deref(s2.vars[k], s2)
                    if bv is not None and simple_exits:
                        found = t.tany(n, idx, brk)
                        lv = ite(found, t.subst(t.subst(bv, submap), {idx: mk('firsthit', n, t.bind('lambda', idx, (num(1),), (early,)))}), lv)
                out.vars[k] = lv
        # closures created inside loops etc. stay reachable
        for k, v in end.vars.items():
            if k not in out.vars:
                out.vars[k] = v
        # objects created inside the loop body
        for k, v in end.heap.items():
            if k not in out.heap and k[0].op == 'ref' and not self._older(k[0], st):
                out.heap[k] = v
        # exits
        def lift(c):
            c = t.subst(c, submap) if submap else c
            return t.tany(n, idx, c) if n is not None else mk('anyiter', c)
        rlist = []
        for c, exc in lctx.raises:
            rlist.append((land(pc0, lift(c)), exc))
        pc = pc0
        for c, v, s2 in lctx.returns:
            cc = lift(c)
            hit = mk('firsthit', n if n is not None else NONE, t.bind('lambda', idx, (num(1),), (t.subst(early, submap),)))
            t.INT_ATOMS.add(hit)
            dv = self.deref(v, s2)
            dv = t.subst(t.subst(dv, submap) if submap else dv, {idx: hit})
            so = out.copy()
            if len(lctx.returns) == 1 and brk is FALSE:
                vv = dv
            else:
                vv = dv
            ctx.returns.append((land(pc0, cc), vv, so))
            pc = land(pc, lnot(cc))
        for c, exc in rlist:
            ctx.raises.append((c, exc))
            pc = land(pc, lnot(c))
        st.vars, st.heap = out.vars, out.heap
        if n is None and exit_c is FALSE and not lctx.breaks:
            st.pc = FALSE
        else:
            st.pc = pc

    def _subst_event(self, e, m):
        def go(x):
            if isinstance(x, t.T):
                return t.subst(x, m)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, dict):
                return {k: go(v) for k, v in x.items()}
            return x
        e.guard = go(e.guard)
        e.data = {k: go(v) for k, v in e.data.items()}
        e.loops = tuple((i, go(nn) if nn is not None else None) for i, nn in e.loops)
        e.hits = tuple((i, go(h), go(c)) for i, h, c in e.hits)

    def _recognise(self, phi, nx, init, idx, n, ntot, allphi, early):
        """closed form after the loop of a variable whose update follows a known pattern"""
        fp = self._free_phis(nx)
        if not (fp & set(allphi)):
            if not t.contains(nx, idx):
                v = nx
            else:
                v = t.subst(nx, {idx: t.sub(ntot, ONE)})
            return ite(t.pos(ntot), v, init)
        if fp & set(allphi) != {phi}:
            return None
        # sequences
        r = self._seq_step(phi, nx)
        if r is not None:
            items, cond, single = r
            if not t.contains(items, phi) and not t.contains(cond, phi):
                col = mkcollect(ntot, idx, items, cond) if single else mkflat(ntot, idx, items, cond)
                return t.concat(init, col)
            return None
        if nx.op == 'dict' or (nx.op == 'ite' and (nx.a[1].op == 'dict' or nx.a[2].op == 'dict')):
            r = self._dict_step(phi, nx)
            if r is not None:
                k, v, c = r
                g = self._group_step(phi, k, v, c, init, idx, ntot)
                if g is not None:
                    return g
                if not any(t.contains(x, phi) for x in (k, v, c)):
                    pairs = mkcollect(ntot, idx, t.seq([k, v]), c)
                    return t.dict_update(init, dict_of_pairs(pairs)) if init.op == 'dict' and not init.a[0] else \
                        t.dict_update(init if init.op == 'dict' else t.dict_update(t.dict_([]), init), dict_of_pairs(pairs))
            return None
        # booleans
        p1 = p0 = None
        if t.is_bool(init) and not t.is_bool(nx) and nx.op == 'ite':
            p1, p0 = t.subst(nx, {phi: TRUE}), t.subst(nx, {phi: FALSE})
            if not (t.is_bool(p1) and t.is_bool(p0)):
                p1 = p0 = None
        if t.is_bool(nx) or p1 is not None:
            p1 = t.subst(nx, {phi: TRUE})
            p0 = t.subst(nx, {phi: FALSE})
            if p1 is TRUE and not t.contains(p0, phi):
                return lor(self._b(init), t.tany(ntot, idx, p0))
            if p0 is FALSE and not t.contains(p1, phi):
                return land(self._b(init), lnot(t.tany(ntot, idx, lnot(p1))))
            return None
        # running extremum
        if nx.op in ('min', 'max'):
            parts = list(nx.a[0])
            if phi in parts:
                parts.remove(phi)
                e = t.mkminmax(nx.op, parts)
                if not t.contains(e, phi):
                    return t.mkminmax(nx.op, [init, mk(nx.op + 'of', t.collect(ntot, idx, e))])
        # conditional sums   ite(c, phi + d, phi)
        if nx.op == 'ite':
            c, a, b = nx.a
            if not t.contains(c, phi):
                if b is phi and not (self._free_phis(a) & set(allphi)):
                    return self._last(n, idx, c, a, init, ntot)
                if a is phi and not (self._free_phis(b) & set(allphi)):
                    return self._last(n, idx, lnot(c), b, init, ntot)
        return None

    def _b(self, x):
        return x if t.is_bool(x) else t.truth(x)

    def _last(self, n, idx, c, v, init, ntot):
        hit = mk('lasthit', ntot, t.bind('lambda', idx, (num(1),), (c,)))
        t.INT_ATOMS.add(hit)
        return ite(t.tany(ntot, idx, c), t.subst(v, {idx: hit}), init)

    def _seq_step(self, phi, nx):
        """phi ++ items (under a condition): (items, cond, single)"""
        if nx.op == 'seq':
            parts = nx.a[0]
            if parts and parts[0] == ('s', phi):
                rest = parts[1:]
                if len(rest) == 1:
                    k, x = rest[0]
                    return (x, TRUE, True) if k == 'e' else (x, TRUE, False)
                return (mk('seq', tuple(rest)), TRUE, False)
            return None
        if nx.op == 'ite':
            c, a, b = nx.a
            if b is phi:
                r = self._seq_step(phi, a)
                if r:
                    return (r[0], land(c, r[1]), r[2])
            if a is phi:
                r = self._seq_step(phi, b)
                if r:
                    return (r[0], land(lnot(c), r[1]), r[2])
            ra, rb = self._seq_step(phi, a), self._seq_step(phi, b)
            if ra and rb and ra[1] is TRUE and rb[1] is TRUE:
                if ra[2] and rb[2]:
                    return (ite(c, ra[0], rb[0]), TRUE, True)
                w = lambda r: t.seq([r[0]]) if r[2] else r[0]
                return (ite(c, w(ra), w(rb)), TRUE, False)
        return None

    def _group_step(self, phi, k, v, c, init, idx, ntot):
        """d[k].append(x): a dictionary of the groups of equal key, keys in order of first appearance"""
        if t.contains(k, phi) or not (init.op == 'dict' and not init.a[0]):
            return None
        old = t.item(phi, k)

        def tail(v):
            if v.op == 'seq' and v.a[0] and len(v.a[0]) == 2 and v.a[0][0] == ('s', old) and v.a[0][1][0] == 'e':
                return v.a[0][1][1]
            return None
        x = tail(v)
        if v.op == 'ite':
            a, b = tail(v.a[1]), tail(v.a[2])
            one = lambda y: (t.seq_elems(y) or [None])[0] if len(t.seq_elems(y) or []) == 1 else None
            known = t.inside(k, phi)
            if a is not None and a is one(v.a[2]) and v.a[0] is known:
                x = a
            if b is not None and b is one(v.a[1]) and v.a[0] is lnot(known):
                x = b
        if v.op == 'seq' and v.a[0] and len(v.a[0]) == 2 and v.a[0][0][0] == 's' and v.a[0][1][0] == 'e':
            d = v.a[0][0][1]
            known = t.inside(k, phi)
            if d.op == 'ite' and ((d.a[0] is known and d.a[1] is old and d.a[2] is EMPTY) or
                                  (d.a[0] is lnot(known) and d.a[2] is old and d.a[1] is EMPTY)):
                x = v.a[0][1][1]
        if x is None or t.contains(x, phi) or t.contains(c, phi):
            return None
        return t.bind('groupby', idx, (ntot,), (k, x, c))

    def _dict_step(self, phi, nx):
        if nx.op == 'ite':
            c, a, b = nx.a
            if b is phi:
                r = self._dict_step(phi, a)
                return r and (r[0], r[1], land(c, r[2]))
            if a is phi:
                r = self._dict_step(phi, b)
                return r and (r[0], r[1], land(lnot(c), r[2]))
            if a.op == b.op == 'dict':
                ra, rb = self._dict_step(phi, a), self._dict_step(phi, b)
                if ra and rb and ra[0] is rb[0] and ra[2] is rb[2] is TRUE:
                    return (ra[0], ite(c, ra[1], rb[1]), TRUE)
            return None
        ents = nx.a[0]
        if len(ents) == 2 and ents[0][0].op == 'splice' and ents[0][1] is phi and ents[1][0].op != 'splice':
            return (ents[1][0], ents[1][1], TRUE)
        return None

    def _general(self, n, idx, phis, solved, nexts, st, lctx, exit_c, want, results, end):
        """canonical term for a loop that follows no known pattern; returns {phi: state term}"""
        locs = [l for l in phis if l not in solved]
        ph = {l: phis[l][0] for l in locs}
        init = {l: self._init(l, phis[l][1], st) for l in phis}
        brk = lor(*[c for c, s2 in lctx.breaks])
        # value on leaving through a break differs from the regular end of iteration
        nxt = {}
        for l in locs:
            v = nexts[l]
            for c, s2 in lctx.breaks:
                bv = self.deref(self._get(s2, l) or UNDEF, s2)
                v = ite(c, bv, v) if v is not UNDEF else bv
            nxt[l] = v
        ret = lor(*[c for c, v, s2 in lctx.returns])
        stop = lor(brk, ret)
        nterm = n if n is not None else NONE
        # colours
        col = {l: mk('col', init[l]) for l in locs}
        for _ in range(len(locs) + 1):
            m = {ph[l]: mk('phicol', col[l].dg.hex(), 'i' if ph[l] in t.INT_ATOMS else 'n') for l in locs}
            m2 = dict(m)
            for x in m.values():
                if x.a[1] == 'i':
                    t.INT_ATOMS.add(x)
            m2[idx] = mk('idxcol')
            t.INT_ATOMS.add(m2[idx])
            col = {l: mk('col', init[l], t.subst(nxt[l], m2), t.subst(exit_c, m2), t.subst(stop, m2)) for l in locs}
        order = sorted(locs, key=lambda l: col[l].dg)
        # relevant variables of each
        def deps(x):
            return [l for l in order if t.contains(x, ph[l])]

        def closure(ls):
            s = set(ls)
            while True:
                k = set(s)
                for l in list(s):
                    k |= set(deps(nxt[l]))
                if k == s:
                    return [l for l in order if l in s]
                s = k
        ctl = closure(deps(exit_c) + deps(stop))
        submap = {}
        def above(sub, *more):
            """number for the state variables: above those of the loops nested in what this variable depends on"""
            return 1 + max([y.a[0] for x in [*(nxt[x] for x in sub), exit_c, stop, *more] for y in t.subterms(x) if y.op == 'lv'] or [0])
        for l in locs:
            sub = closure([l] + ctl)
            lvd = above(sub)
            ren = {ph[x]: mk('lv', lvd, i, 'i' if ph[x] in t.INT_ATOMS else 'n') for i, x in enumerate(sub)}
            body = tuple((init[x], t.subst(nxt[x], ren)) for x in sub)
            args = (nterm, t.subst(exit_c, ren), t.subst(stop, ren), body, num(sub.index(l)))
            # close over the loop index
            node_ = t.bind('lambda', idx, (num(1),), (mk('looparg', args[1], args[2], args[3]),))
            sig = mk('gloop', nterm, node_, args[4])
            submap[ph[l]] = mk('lstate', sig)
            if ph[l] in t.INT_ATOMS:
                t.INT_ATOMS.add(sig)
                t.INT_ATOMS.add(submap[ph[l]])
            if l in want or l not in results:
                results[l] = sig
        for l in want:
            if l in solved:
                # final value needs the number of iterations
                if n is not None and not lctx.breaks and not lctx.returns:
                    results[l] = solved[l](n)
                else:
                    sub = ctl
                    lvd = above(sub)
                    ren = {ph[x]: mk('lv', lvd, i, 'i' if ph[x] in t.INT_ATOMS else 'n') for i, x in enumerate(sub)}
                    body = tuple((init[x], t.subst(nxt[x], ren)) for x in sub)
                    v = solved[l](idx)
                    node_ = t.bind('lambda', idx, (num(1),), (mk('looparg', t.subst(exit_c, ren), t.subst(stop, ren), body, t.subst(v, ren)),))
                    results[l] = mk('gloop', nterm, node_, const('closed'))
        return submap

    def s_While(self, n, st, fr, ctx):
        if n.orelse:
            raise Unsupported('while-else', n)

        def wc(s, lctx):
            return self.cond(n.test, s, fr, lctx)

        def body(i, s, lctx):
            self.block(n.body, s, fr, lctx)
        self.loop(None, body, st, fr, ctx, n, while_cond=wc)

    # ------------------------------------------------------------ entry points
    def run(self, qual, params=None, types=None, fixed=None, self_type=None, bare=False):
        """analyse function/method `qual` on symbolic parameters"""
        r = self.prog.resolve(qual)
        if r is None or r[0] not in ('func', 'method'):
            raise Unsupported('entry point %s not found' % qual)
        if r[0] == 'func':
            f = self.top_function(r)
            node = r[2]
            o = self.funs[self.modcache[('tbase', r[3])].a[0]]
            selfn = None
        else:
            cls = qual.rsplit('.', 1)[0]
            info = self.find_member(self.prog.resolve(cls)[3], qual.rsplit('.', 1)[1])
            if info is None:
                raise Unsupported('entry point %s not found' % qual)
            f = self.member_closure(info)
            node = info[3]
            selfn = node.args.args[0].arg if info[0] in ('method', 'property', 'classmethod') else None
            if selfn:
                p = mk('param', 'self') if info[0] != 'classmethod' else mk('glob', info[2])
                if info[0] != 'classmethod':
                    self.types.setdefault(p, info[2])
                fixed = dict(fixed or {})
                fixed.setdefault(selfn, p)
        return self.run_fn(f, node, types or {}, fixed or {})

    def run_fn(self, f, node, types, fixed):
        st = State(dict(self.modstate().vars), {}, TRUE)
        ctx = Ctx('fn')
        self.events = []
        args = []
        kwargs = {}
        params = {}
        a = node.args
        for x in a.posonlyargs + a.args:
            v = fixed.get(x.arg)
            if v is None and x.annotation is not None and isinstance(x.annotation, ast.Name) and x.annotation.id.startswith('cxx_'):
                self.cur_ctx = ctx
                v = cxx.declare(self, getattr(self, 'rename', {}).get(x.arg, x.arg), x.annotation.id, st)
            if v is None:
                v = mk('param', x.arg)
            if x.arg in types:
                self.types[v] = types[x.arg]
            params[x.arg] = v
            args.append(v)
        for x in a.kwonlyargs:
            v = fixed.get(x.arg, mk('param', x.arg))
            params[x.arg] = v
            kwargs[x.arg] = v
        if a.vararg:
            args.append(mk('star', mk('param', '*' + a.vararg.arg)))
        if a.kwarg:
            kwargs['**'] = mk('param', '**' + a.kwarg.arg)
        self.cur_ctx = ctx
        ret = self.call_value(f, args, kwargs, st, node, ctx)
        res = Result()
        res.raw = ret
        res.ret = self.deref(ret, st)
        res.raises = list(ctx.raises)
        res.events = self.events
        for i, e in enumerate(res.events):
            e.seq = i
        res.state = st
        res.params = params
        res.pc = st.pc
        res.ev = self
        return res


def dict_of_pairs(c):
    return mk('dict', ((mk('splice'), mk('dictof', c)),))


mkcollect = t.collect


def _same_emptiness(c, body):
    """c says that a sequence collected over the same domain is not empty"""
    if c.op != 'truth':
        return False
    x = c.a[0]
    while x.op == 'collect' and x.a[3] is TRUE:
        n = x.a[1]
        if n is body.a[1]:
            return True
        if n.op != 'len':
            return False
        x = n.a[0]
    return body.a[1].op == 'len' and body.a[1].a[0] is x


def _own_exit(x):
    """break or continue belonging to the enclosing loop"""
    if isinstance(x, (ast.Break, ast.Continue)):
        return True
    if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
        return False
    return any(_own_exit(y) for y in ast.iter_child_nodes(x))


def _ungroup(n, idx, body, cond):
    """all members of all groups, each with its key: the grouped elements in another order"""
    if n.op != 'len' or n.a[0].op != 'groupby' or body.op != 'collect':
        return None
    G = n.a[0]
    K = t.item(mk('keys', G), idx)
    M = t.item(G, K)
    if body.a[1] is not t.length(M):
        return None
    j, outer, inner = t.open_node(body)
    vk, vm = t.fresh_idx(), t.fresh_idx()
    m = {t.item(M, j): vm, K: vk}
    e, c = t.subst(t.subst(inner[0], {t.item(M, j): vm}), {K: vk}), t.subst(t.subst(land(inner[1], cond), {t.item(M, j): vm}), {K: vk})
    if any(t.contains(x, y) for x in (e, c) for y in (j, idx)):
        return None
    i, o, (gk, gv, gc) = t.open_node(G)
    m = {vk: gk, vm: gv}
    return mkcollect(o[0], i, t.subst(e, m), land(gc, t.subst(c, m)))


unperm = t.unperm


def mkflat(n, idx, body, cond=TRUE):
    if body.op == 'collect' and cond is not TRUE:
        # an empty part contributes nothing
        empty = {t.eq(body.a[1], t.ZERO), lnot(t.pos(body.a[1])), lnot(t.truth(body))}
        cs = cond.a[0] if cond.op == 'and' else (cond,)
        cond = land(*[c for c in cs if lnot(c) not in empty and not _same_emptiness(c, body)])
    es = t.seq_elems(body)
    if es is not None and len(es) == 1:
        return mkcollect(n, idx, es[0], cond)
    g = _ungroup(n, idx, body, cond)
    if g is not None:
        return mk('perm', g)
    if body.op == 'ite' and cond is TRUE:
        if body.a[2] is EMPTY:
            return mkflat(n, idx, body.a[1], body.a[0])
        if body.a[1] is EMPTY:
            return mkflat(n, idx, body.a[2], lnot(body.a[0]))
    return mk('flat', mkcollect(n, idx, body, cond))


NAME_PROPS.update({'centre': 'riptide.pipeline.peak_cluster.PeakCluster',
                   'is_harmonic': 'riptide.pipeline.peak_cluster.PeakCluster'})
