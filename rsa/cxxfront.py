"""Native sources: clang's typed syntax tree, translated to the statement language of the evaluator.

The tree is produced by `clang++ -fsyntax-only -ast-dump=json` from /repo's current sources (nothing is built or run). Every function
of the extension becomes a function of the module riptide.native (kernels) or riptide.binding (what python sees). Pointers stay
pointers (cxx.padd), conversions to a narrower floating point type stay visible (cxx.f32), allocations become cxx.new / cxx.array.
"""
import ast
import glob
import json
import os
import re
import subprocess
import sysconfig
import tempfile

from . import pyfront

NATIVE, BINDING = 'riptide.native', 'riptide.binding'


class Unsupported(Exception):
    pass


def includes():
    out = []
    for p in ('/opt/venv/lib/python3*/site-packages/pybind11/include', '/usr/lib/python3*/site-packages/pybind11/include',
              '/usr/lib/python3/dist-packages/pybind11/include', '/usr/local/lib/python3*/*-packages/pybind11/include'):
        out += sorted(glob.glob(p))[:1]
    inc = sysconfig.get_paths()['include']
    out += [p for p in ['/usr/include/python3.12', inc] + sorted(glob.glob('/usr/include/python3*')) if os.path.exists(os.path.join(p, 'Python.h'))][:1]
    return out


def parse(repo=None):
    """(root node, error text or None)"""
    repo = repo or pyfront.REPO
    cpp = os.path.join(repo, 'riptide', 'cpp')
    heads = ['pybind11/pybind11.h', 'pybind11/numpy.h', 'algorithm', 'stdexcept', 'cstring', 'chrono', 'initializer_list', 'cstddef',
             'cmath', 'memory', 'vector', 'cstdlib', 'type_traits', 'cstdint', 'string', 'numeric', 'utility', 'functional', 'limits', 'array', 'tuple']
    for p in sorted(glob.glob(os.path.join(cpp, '*'))):
        if p.endswith(('.hpp', '.h', '.cpp', '.cc')):
            for m in re.finditer(r'^\s*#\s*include\s*<([^>]+)>', open(p, errors='replace').read(), re.M):
                if m.group(1) not in heads:
                    heads.append(m.group(1))
    mains = [p for p in sorted(glob.glob(os.path.join(cpp, '*.c*'))) if p.endswith(('.cpp', '.cc'))]
    with tempfile.TemporaryDirectory() as d:
        syn = os.path.join(d, 'syn.cpp')
        with open(syn, 'w') as f:
            f.write(''.join('#include <%s>\n' % h for h in heads))
            f.write('namespace vfroot {\n' + ''.join('#include "%s"\n' % p for p in mains) + '}\n')
        r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w'] + ['-I' + i for i in includes()] +
                           ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=vfroot', syn],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    s = r.stdout
    i = s.find('{')
    if i < 0:
        raise Unsupported('no syntax tree: ' + r.stderr[:500])
    root, _ = json.JSONDecoder().raw_decode(s, i)
    locate(root)
    return root, (r.stderr[:1000] if r.returncode else None)


def locate(root):
    """clang prints file and line only when they change"""
    cur = ['?', 0]

    def bare(l):
        if not isinstance(l, dict):
            return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                bare(l[k])
                l.setdefault('_at', l[k].get('_at'))
        if 'file' in l:
            cur[0] = l['file']
        if 'line' in l:
            cur[1] = l['line']
        if 'offset' in l or 'col' in l:
            l['_at'] = (cur[0], cur[1])
        if 'expansionLoc' in l:
            l['_at'] = l['expansionLoc'].get('_at')

    def go(n):
        at = None
        for k, v in list(n.items()):
            if k == 'loc':
                bare(v)
                at = v.get('_at')
            elif k == 'range':
                bare(v.get('begin'))
                bare(v.get('end'))
                n['_at'] = at or (v.get('begin') or {}).get('_at') or tuple(cur)
            elif k == 'inner':
                for c in v:
                    if isinstance(c, dict):
                        go(c)
    go(root)


def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def base(q):
    q = re.sub(r'\b(const|volatile|__restrict|restrict)\b', '', q)
    return q.replace('&&', '').replace('&', '').strip()


INTS = {'size_t', 'unsigned long', 'unsigned int', 'int', 'long', 'uint32_t', 'uint64_t', 'int32_t', 'int64_t', 'unsigned long long',
        'long long', 'ssize_t', 'short', 'unsigned short', 'char', 'unsigned char', 'std::size_t', 'ptrdiff_t', 'py::ssize_t'}


SIGNED = {'int', 'long', 'int32_t', 'int64_t', 'long long', 'ssize_t', 'short', 'ptrdiff_t', 'py::ssize_t'}


def kind(q):
    """f32 f64 int bool ptr arr other"""
    b = base(q)
    if b.endswith('*') or b.endswith(']') or 'unique_ptr<' in b or 'std::vector<' in b:
        return 'ptr'
    if b == 'float':
        return 'f32'
    if b in ('double', 'long double'):
        return 'f64'
    if b in ('bool', '_Bool'):
        return 'bool'
    if b in INTS:
        return 'int'
    if 'array_t<' in b or 'unchecked_reference<' in b or 'unchecked_mutable_reference<' in b:
        return 'arr'
    return 'other'


BYTES = {'float': 4, 'double': 8, 'size_t': 8, 'unsigned long': 8, 'uint32_t': 4, 'unsigned int': 4, 'int': 4, 'long': 8, 'char': 1}
EXC = {'invalid_argument': 'ValueError', 'out_of_range': 'IndexError', 'runtime_error': 'RuntimeError', 'domain_error': 'ValueError',
       'length_error': 'ValueError', 'value_error': 'ValueError', 'index_error': 'IndexError', 'logic_error': 'RuntimeError',
       'overflow_error': 'OverflowError', 'range_error': 'ValueError', 'bad_alloc': 'MemoryError', 'type_error': 'TypeError'}
STD1 = {'floor': 'math.floor', 'ceil': 'math.ceil', 'sqrt': 'math.sqrt', 'log': 'math.log', 'exp': 'math.exp', 'fabs': 'abs', 'abs': 'abs',
        'log2': 'math.log2', 'log10': 'math.log10', 'trunc': 'cxx.trunc', 'round': 'cxx.round', 'sin': 'math.sin', 'cos': 'math.cos'}
ARITH = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor,
         '<<': ast.LShift, '>>': ast.RShift}
CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}
FLAGS = {'NPY_ARRAY_C_CONTIGUOUS_': 1, 'NPY_ARRAY_F_CONTIGUOUS_': 2, 'NPY_ARRAY_OWNDATA_': 4, 'NPY_ARRAY_FORCECAST_': 16,
         'NPY_ARRAY_ENSUREARRAY_': 64, 'NPY_ARRAY_ALIGNED_': 256, 'NPY_ARRAY_WRITEABLE_': 1024, 'c_style': 1, 'f_style': 2, 'forcecast': 16}
THROUGH = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr',
           'ConstantExpr', 'CXXStdInitializerListExpr', 'CXXDefaultInitExpr', 'FullExpr'}


class Tr:
    """one function"""

    def __init__(self, front, fn):
        self.f, self.fn = front, fn
        self.names = {}
        self.used = set()
        self.at = fn.get('_at') or ('?', 0)
        self.pre = []       # statements to run before the one being translated
        self.writes_refs = set()

    # ------------------------------------------------------------ building
    def n(self, node):
        for x in ast.walk(node):
            if not hasattr(x, '_file'):
                x._file = self.at[0]
                x.lineno = x.end_lineno = self.at[1]
                x.col_offset = x.end_col_offset = 0
        return node

    def name(self, x):
        return self.n(ast.Name(id=x, ctx=ast.Load()))

    def dotted(self, d):
        parts = d.split('.')
        e = self.name(parts[0])
        for p in parts[1:]:
            e = self.n(ast.Attribute(value=e, attr=p, ctx=ast.Load()))
        return e

    def call(self, f, *args):
        return self.n(ast.Call(func=self.dotted(f) if isinstance(f, str) else f, args=list(args), keywords=[]))

    def const(self, v):
        return self.n(ast.Constant(value=v))

    def store(self, e):
        e = self.n(e)
        e.ctx = ast.Store()
        return e

    def declare(self, d):
        nm = d.get('name') or '_anon'
        out, k = nm, 1
        import keyword
        while out in self.used or keyword.iskeyword(out) or out in ('cxx', 'math', 'self', 'abs', 'min', 'max', 'int', 'all', 'any', 'sum', 'range') or out in self.f.globals_:
            k += 1
            out = '%s_%d' % (nm, k)
        self.used.add(out)
        self.names[d['id']] = out
        return out

    def bad(self, n, what=''):
        at = n.get('_at') or self.at
        raise Unsupported('%s %s at %s:%s' % (n.get('kind'), what, os.path.basename(str(at[0])), at[1]))

    # ------------------------------------------------------------ expressions
    def e(self, n):
        old = self.at
        if n.get('_at'):
            self.at = n['_at']
        try:
            m = getattr(self, 'e_' + n['kind'], None)
            if n['kind'] in THROUGH:
                return self.e(n['inner'][0])
            if m is None:
                self.bad(n)
            return self.n(m(n))
        finally:
            self.at = old

    def e_IntegerLiteral(self, n):
        return self.const(int(n['value']))

    def e_FloatingLiteral(self, n):
        return self.const(float(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return self.const(bool(n['value']))

    def e_CharacterLiteral(self, n):
        return self.const(chr(n['value']))

    def e_StringLiteral(self, n):
        return self.const(n.get('value', ''))

    def e_CXXNullPtrLiteralExpr(self, n):
        return self.const(None)

    def e_CXXThisExpr(self, n):
        return self.name('self')

    def e_CXXDefaultArgExpr(self, n):
        return self.name('cxx_default')

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        if r['id'] in self.names:
            return self.name(self.names[r['id']])
        q = self.f.fnames.get(r['id'])
        if q:
            return self.dotted(q)
        if r['id'] in self.f.gvars:
            return self.dotted(self.f.gvars[r['id']])
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            return self.name('std_' + str(r.get('name')))
        if r.get('kind') == 'EnumConstantDecl' and r.get('name') in FLAGS:
            return self.const(FLAGS[r['name']])
        return self.name('ext_' + str(r.get('name')))

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = lambda self, n: self.cast(n)

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n.get('castKind')
        c = n['inner'][0]
        to, frm = kind(qt(n)), kind(qt(c))
        if ck == 'NoOp' and n['kind'] != 'ImplicitCastExpr' and to != frm:
            pass
        x = self.e(c)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            if to == 'f32' and frm != 'f32':
                return self.call('cxx.f32', x)
            return x
        if ck == 'FloatingToIntegral':
            return self.call('cxx.trunc' if base(qt(n)) in SIGNED else 'cxx.toint', x)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            if self.isbool(c):
                return x
            return self.n(ast.Compare(left=x, ops=[ast.NotEq()], comparators=[self.const(0)]))
        if ck == 'IntegralCast' and base(qt(n)) in ('uint32_t', 'unsigned int', 'int', 'short', 'unsigned short', 'char', 'unsigned char') \
                and base(qt(c)) in ('size_t', 'unsigned long', 'long', 'uint64_t', 'int64_t') and c['kind'] != 'IntegerLiteral':
            return self.call('cxx.narrow', x, self.const(base(qt(n))))
        return x

    def isbool(self, n):
        """an operand of & or | that is a converted bool"""
        while n['kind'] in THROUGH or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralCast', 'NoOp', 'LValueToRValue')):
            if kind(qt(n)) == 'bool':
                return True
            n = n['inner'][0]
        return kind(qt(n)) == 'bool'

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op in CMP:
            return self.n(ast.Compare(left=self.e(a), ops=[CMP[op]()], comparators=[self.e(b)]))
        if op in ('&&', '||'):
            return self.n(ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[self.e(a), self.e(b)]))
        if op in ('&', '|') and self.isbool(a) and self.isbool(b):
            return self.n(ast.BoolOp(op=ast.And() if op == '&' else ast.Or(), values=[self.e(a), self.e(b)]))
        if op == ',':
            self.pre += self.s(a)
            return self.e(b)
        if op == '=':
            self.pre += self.s(n)
            return self.e(a)
        ka, kb = kind(qt(a)), kind(qt(b))
        if op in ('+', '-') and (ka == 'ptr') != (kb == 'ptr'):
            p, k = (a, b) if ka == 'ptr' else (b, a)
            ke = self.e(k)
            if op == '-':
                ke = self.n(ast.UnaryOp(op=ast.USub(), operand=ke))
            return self.call('cxx.padd', self.e(p), ke)
        if op == '-' and ka == 'ptr' and kb == 'ptr':
            return self.call('cxx.pdiff', self.e(a), self.e(b))
        if op not in ARITH:
            self.bad(n, op)
        return self.arith(op, self.e(a), self.e(b), kind(qt(n)), b)

    def arith(self, op, x, y, k, bn=None):
        if k == 'int' and op == '/':
            return self.n(ast.BinOp(left=x, op=ast.FloorDiv(), right=y))
        if op in ('>>', '<<') and isinstance(y, ast.Constant):
            return self.n(ast.BinOp(left=x, op=ast.FloorDiv() if op == '>>' else ast.Mult(), right=self.const(2 ** y.value)))
        r = self.n(ast.BinOp(left=x, op=ARITH[op](), right=y))
        r.fp = k in ('f32', 'f64')
        if k == 'f32':
            return self.call('cxx.f32', r)
        return r

    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = n['inner'][0]
        if op == '-':
            return ast.UnaryOp(op=ast.USub(), operand=self.e(c))
        if op == '+':
            return self.e(c)
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.e(c))
        if op == '~':
            return ast.UnaryOp(op=ast.Invert(), operand=self.e(c))
        if op == '*':
            inner = strip(c)
            if inner['kind'] == 'CallExpr':
                d = self.callee(inner)
                if d in ('max_element', 'min_element'):
                    return self.over(d[:3], inner['inner'][1:])
            if inner['kind'] == 'UnaryOperator' and inner.get('opcode') in ('++', '--'):
                return ast.Subscript(value=self.e(c), slice=self.const(0), ctx=ast.Load())
            return ast.Subscript(value=self.e(c), slice=self.const(0), ctx=ast.Load())
        if op == '&':
            inner = strip(c)
            if inner['kind'] == 'ArraySubscriptExpr':
                return self.call('cxx.padd', self.e(inner['inner'][0]), self.e(inner['inner'][1]))
            return self.e(c)
        if op in ('++', '--'):
            v = self.e(c)
            if n.get('isPostfix'):
                tmp = self.fresh('old')
                self.pre.append(self.n(ast.Assign(targets=[self.store(ast.Name(id=tmp))], value=v)))
                self.pre += self.s(n)
                return self.name(tmp)
            self.pre += self.s(n)
            return self.e(c)
        self.bad(n, op)

    def fresh(self, stem):
        k = 1
        while '%s__%d' % (stem, k) in self.used:
            k += 1
        self.used.add('%s__%d' % (stem, k))
        return '%s__%d' % (stem, k)

    def e_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        return ast.Subscript(value=self.e(a), slice=self.e(b), ctx=ast.Load())

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return ast.IfExp(test=self.e(c), body=self.e(a), orelse=self.e(b))

    def e_UnaryExprOrTypeTraitExpr(self, n):
        at = n.get('argType', {}).get('qualType') or (qt(n['inner'][0]) if n.get('inner') else '')
        b = base(at)
        if b in BYTES:
            return self.const(BYTES[b])
        self.bad(n, at)

    def e_InitListExpr(self, n):
        return ast.List(elts=[self.e(c) for c in n.get('inner', ())], ctx=ast.Load())

    def e_ImplicitValueInitExpr(self, n):
        return self.const(0)

    def e_CXXScalarValueInitExpr(self, n):
        return self.const(0)

    def e_CXXNewExpr(self, n):
        if not n.get('isArray'):
            self.bad(n)
        return self.call('cxx.new', self.e(n['inner'][0]), self.const(base(qt(n)).rstrip('*').strip()))

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        m = next((c for c in rec.get('inner', ()) if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()'), None)
        if m is None:
            self.bad(n, 'generic lambda')
        ps = [c for c in m.get('inner', ()) if c['kind'] == 'ParmVarDecl']
        body = next((c for c in m['inner'] if c['kind'] == 'CompoundStmt'), None)
        sts = body.get('inner', [])
        args = [self.declare(p) for p in ps]
        if len(sts) == 1 and sts[0]['kind'] == 'ReturnStmt':
            save, self.pre = self.pre, []
            x = self.e(sts[0]['inner'][0])
            if self.pre:
                self.bad(n, 'effects in a lambda')
            self.pre = save
            return ast.Lambda(args=arguments([ast.arg(arg=a) for a in args]), body=x)
        # a local function
        nm = self.fresh('lambda')
        save, self.pre = self.pre, []
        b = self.block(body)
        self.pre = save
        self.pre.append(self.n(ast.FunctionDef(name=nm, args=arguments([ast.arg(arg=a) for a in args]), body=b or [self.n(ast.Pass())],
                                               decorator_list=[], type_params=[])))
        return self.name(nm)

    def e_MemberExpr(self, n):
        c = n.get('inner', [None])[0]
        if c is None:
            return self.name('self')
        b = self.e(c)
        nm = n.get('name')
        if not nm:
            return b
        return ast.Attribute(value=b, attr=nm, ctx=ast.Load())

    def construct(self, n):
        q = base(qt(n))
        args = [c for c in n.get('inner', ()) if c['kind'] != 'CXXDefaultArgExpr']
        if 'BlockTemplate<' in q or q in self.f.classes_named:
            cls = self.f.class_of(q)
            if len(args) == 1 and self.f.class_of(base(qt(args[0]))) == cls:
                return self.e(args[0])
            return self.call(cls, *[self.e(a) for a in args])
        cls = self.f.class_of(q)
        if cls:
            if len(args) == 1 and self.f.class_of(base(qt(args[0]))) == cls:
                return self.e(args[0])
            return self.call(cls, *[self.e(a) for a in args])
        if 'unique_ptr<' in q or 'shared_ptr<' in q:
            if not args:
                return self.const(None)
            return self.e(args[0])
        if 'vector<' in q:
            el = re.search(r'vector<\s*([\w: ]+)', q)
            if not args:
                return self.call('cxx.new', self.const(0), self.const('?'))
            if len(args) == 1 and 'vector<' in qt(args[0]):
                return self.call('cxx.copyof', self.e(args[0]))
            r = self.call('cxx.new', self.e(args[0]), self.const(base(el.group(1)) if el else '?'))
            r.args.append(self.e(args[1]) if len(args) > 1 else self.const(0))
            return r
        if 'array_t<' in q:
            if not args:
                return self.call('cxx.array', self.const(0))
            if len(args) == 1 and 'array_t<' in qt(args[0]):
                return self.e(args[0])
            a0 = self.e(args[0])
            if isinstance(a0, ast.Call) and ast.unparse(a0.func) == 'cxx.array':
                return a0
            return self.call('cxx.array', a0, self.const(re.search(r'array_t<\s*([\w: ]+)', q).group(1).strip()))
        if 'initializer_list<' in q and args:
            return self.e(args[0])
        if 'ShapeContainer' in q or 'any_container' in q:
            return self.e(args[0])
        for k, v in EXC.items():
            if q.split('::')[-1] == k:
                return self.call(v, *[self.e(a) for a in args[:1]])
        if 'basic_string' in q or q.endswith('string'):
            return self.e(args[0]) if args else self.const('')
        if 'tuple<' in q or 'pair<' in q:
            if len(args) == 1 and 'tuple<' in qt(args[0]):
                return self.e(args[0])
            return self.n(ast.Tuple(elts=[self.e(a) for a in args], ctx=ast.Load()))
        if len(args) == 1 and (n.get('elidable') or base(qt(args[0])) == q):
            return self.e(args[0])
        return self.call('ext_' + re.sub(r'\W+', '_', q.split('<')[0]), *[self.e(a) for a in args])

    def e_CXXConstructExpr(self, n):
        return self.construct(n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def callee(self, n):
        c = strip(n['inner'][0])
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl'].get('name')
        return None

    def elements(self, a, b):
        """(pointer, count) of an iterator range"""
        a, b = strip(a), strip(b)
        pa, pb = self.e(a), self.e(b)
        if ast.dump(pa) == ast.dump(pb):
            return pa, self.const(0)
        if isinstance(pb, ast.Call) and ast.unparse(pb.func) == 'cxx.padd' and ast.dump(pb.args[0]) == ast.dump(pa):
            return pa, pb.args[1]
        if isinstance(pb, ast.Call) and ast.unparse(pb.func) == 'cxx.end' and isinstance(pa, ast.Call) and ast.unparse(pa.func) == 'cxx.begin':
            return pa.args[0], self.call('cxx.length', pa.args[0])
        if isinstance(pa, ast.Call) and ast.unparse(pa.func) == 'cxx.begin':
            return pa.args[0], self.call('cxx.pdiff', pb, pa.args[0])
        return pa, self.call('cxx.pdiff', pb, pa)

    def gen(self, p, k, f=None):
        j = self.fresh('j')
        el = self.n(ast.Subscript(value=p, slice=self.name(j), ctx=ast.Load()))
        if f is not None:
            el = self.n(ast.Call(func=f, args=[el], keywords=[]))
        return self.n(ast.GeneratorExp(elt=el, generators=[self.n(ast.comprehension(target=self.store(ast.Name(id=j)), iter=self.call('range', k), ifs=[], is_async=0))]))

    def over(self, fn, args, f=None):
        p, k = self.elements(args[0], args[1])
        return self.call(fn, self.gen(p, k, f))

    def e_CallExpr(self, n):
        c = strip(n['inner'][0])
        args = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            q = self.f.fnames.get(r['id'])
            if q:
                return self.call(q, *[self.e(a) for a in args])
            if r['id'] in self.names:
                return self.call(self.name(self.names[r['id']]), *[self.e(a) for a in args])
            return self.std(n, r.get('name'), args)
        if c['kind'] in ('LambdaExpr',):
            return self.call(self.e(c), *[self.e(a) for a in args])
        self.bad(n, 'indirect call')

    def std(self, n, nm, args):
        if nm in STD1 and len(args) == 1:
            r = self.call(STD1[nm], self.e(args[0]))
            if kind(qt(n)) == 'f32':
                return self.call('cxx.f32', r)
            return r
        if nm in ('floorf', 'ceilf', 'sqrtf', 'logf', 'powf', 'expf', 'fabsf'):
            r = self.call(STD1.get(nm[:-1], 'pow'), *[self.e(a) for a in args])
            return self.call('cxx.f32', r)
        if nm == 'pow':
            r = self.n(ast.BinOp(left=self.e(args[0]), op=ast.Pow(), right=self.e(args[1])))
            r.fp = True
            return self.call('cxx.f32', r) if kind(qt(n)) == 'f32' else r
        if nm in ('min', 'max'):
            if len(args) == 1:
                x = self.e(args[0])
                if isinstance(x, (ast.List, ast.Tuple)):
                    return self.call(nm, *x.elts)
                return self.call(nm, x)
            return self.call(nm, *[self.e(a) for a in args[:2]])
        if nm in ('fmin', 'fmax', 'fminf', 'fmaxf'):
            return self.call(nm[1:4], *[self.e(a) for a in args])
        if nm == 'fmod' or nm == 'remainder':
            return self.call('cxx.' + nm, *[self.e(a) for a in args])
        if nm in ('all_of', 'any_of', 'none_of'):
            f = self.e(args[2])
            r = self.over({'all_of': 'all', 'any_of': 'any', 'none_of': 'any'}[nm], args[:2], f)
            return self.n(ast.UnaryOp(op=ast.Not(), operand=r)) if nm == 'none_of' else r
        if nm == 'accumulate':
            return self.n(ast.BinOp(left=self.e(args[2]), op=ast.Add(), right=self.over('sum', args[:2])))
        if nm in ('move', 'forward', 'ref', 'cref', 'as_const'):
            return self.e(args[0])
        if nm in ('begin', 'end', 'cbegin', 'cend', 'data', 'size'):
            return self.call('cxx.' + nm.lstrip('c') if nm not in ('size',) else 'cxx.length', self.e(args[0]))
        if nm in ('make_tuple', 'tie', 'make_pair'):
            return self.n(ast.Tuple(elts=[self.e(a) for a in args], ctx=ast.Load()))
        if nm == 'make_unique':
            el = re.search(r'unique_ptr<\s*([\w: ]+)', qt(n))
            r = self.call('cxx.new', self.e(args[0]), self.const(base(el.group(1)) if el else '?'))
            r.args.append(self.const(0))
            return r
        if nm in ('isnan', 'isfinite', 'isinf'):
            return self.call('cxx.' + nm, *[self.e(a) for a in args])
        if nm in ('next', 'advance'):
            return self.call('cxx.padd', *[self.e(a) for a in args])
        if nm == 'distance':
            return self.call('cxx.pdiff', self.e(args[1]), self.e(args[0]))
        if nm == 'max_element' or nm == 'min_element':
            p, k = self.elements(args[0], args[1])
            return self.call('cxx.' + nm, p, k)
        if nm == 'to_string':
            return self.call('str', self.e(args[0]))
        if nm in ('memcpy', 'memmove', 'copy', 'copy_n', 'swap', 'fill', 'fill_n', 'memset', 'transform', 'rotate_copy', 'partial_sum', 'nth_element', 'sort'):
            sts = self.std_stmt(n, nm, args)
            self.pre += sts
            return self.const(None)
        return self.call('std_' + str(nm), *[self.e(a) for a in args])

    def std_stmt(self, n, nm, args):
        ex = lambda f, *a: [self.n(ast.Expr(value=self.call(f, *a)))]
        if nm in ('memcpy', 'memmove'):
            el = strip(args[0], casts=True)
            size = BYTES.get(base(qt(el)).rstrip('*').strip().replace('const', '').strip(), None)
            if size is None:
                size = 1 if base(qt(el)) in ('void *',) else 4
            k = self.n(ast.BinOp(left=self.e(args[2]), op=ast.FloorDiv(), right=self.const(size)))
            return ex('cxx.copy', self.e(args[0]), self.e(args[1]), k)
        if nm == 'copy':
            p, k = self.elements(args[0], args[1])
            return ex('cxx.copy', self.start(self.e(args[2])), p, k)
        if nm == 'copy_n':
            return ex('cxx.copy', self.start(self.e(args[2])), self.start(self.e(args[0])), self.e(args[1]))
        if nm == 'fill':
            p, k = self.elements(args[0], args[1])
            return ex('cxx.fill', p, k, self.e(args[2]))
        if nm == 'fill_n':
            return ex('cxx.fill', self.start(self.e(args[0])), self.e(args[1]), self.e(args[2]))
        if nm == 'memset':
            el = strip(args[0], casts=True)
            size = BYTES.get(base(qt(el)).rstrip('*').strip(), 4)
            v = self.e(args[1])
            k = self.n(ast.BinOp(left=self.e(args[2]), op=ast.FloorDiv(), right=self.const(size)))
            return ex('cxx.fill', self.e(args[0]), k, v)
        if nm == 'swap':
            a, b = self.e(args[0]), self.e(args[1])
            t1 = self.fresh('swap')
            return [self.n(ast.Assign(targets=[self.store(ast.Name(id=t1))], value=a)),
                    self.assign(args[0], b), self.assign(args[1], self.name(t1))]
        if nm == 'transform' and len(args) == 5:
            p, k = self.elements(args[0], args[1])
            j = self.fresh('j')
            x = self.n(ast.Subscript(value=p, slice=self.name(j), ctx=ast.Load()))
            y = self.n(ast.Subscript(value=self.start(self.e(args[2])), slice=self.name(j), ctx=ast.Load()))
            fnode = strip(args[4])
            if 'plus<' in qt(fnode):
                v = self.n(ast.BinOp(left=x, op=ast.Add(), right=y))
            else:
                v = self.n(ast.Call(func=self.e(args[4]), args=[x, y], keywords=[]))
            tg = self.n(ast.Subscript(value=self.start(self.e(args[3])), slice=self.name(j), ctx=ast.Store()))
            return [self.loop(j, k, [self.n(ast.Assign(targets=[tg], value=v))])]
        if nm == 'transform' and len(args) == 4:
            p, k = self.elements(args[0], args[1])
            j = self.fresh('j')
            x = self.n(ast.Subscript(value=p, slice=self.name(j), ctx=ast.Load()))
            v = self.n(ast.Call(func=self.e(args[3]), args=[x], keywords=[]))
            tg = self.n(ast.Subscript(value=self.start(self.e(args[2])), slice=self.name(j), ctx=ast.Store()))
            return [self.loop(j, k, [self.n(ast.Assign(targets=[tg], value=v))])]
        if nm == 'rotate_copy':
            a, m, b, out = [self.start(self.e(x)) for x in args[:4]]
            p = self.call('cxx.pdiff', m, a)
            q = self.call('cxx.pdiff', b, m)
            return ex('cxx.copy', out, m, q) + ex('cxx.copy', self.call('cxx.padd', out, q), a, p)
        return ex('std_' + nm, *[self.e(a) for a in args])

    def start(self, e):
        if isinstance(e, ast.Call) and ast.unparse(e.func) == 'cxx.begin':
            return e.args[0]
        return e

    def loop(self, j, k, body):
        return self.n(ast.For(target=self.store(ast.Name(id=j)), iter=self.call('range', k), body=body, orelse=[]))

    def e_CXXMemberCallExpr(self, n):
        m = strip(n['inner'][0])
        args = [a for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        if m['kind'] != 'MemberExpr':
            self.bad(n, 'member call')
        nm = m.get('name') or ''
        oc = m['inner'][0] if m.get('inner') else None
        obj = self.e(oc) if oc is not None else self.name('self')
        q = base(qt(oc)) if oc is not None else ''
        if nm == 'get' and 'ptr<' in q:
            return obj
        if 'array_t<' in q or 'unchecked_' in q or q.endswith('py::array') or q.endswith('pybind11::array') or 'buffer_info' in q:
            if nm in ('unchecked', 'mutable_unchecked'):
                nd = re.search(r'unchecked_(?:mutable_)?reference<.*,\s*(\d+)\s*>', qt(n))
                return self.call('cxx.view' if nm == 'unchecked' else 'cxx.mview', obj, *([self.const(int(nd.group(1)))] if nd else []))
            if nm in ('data', 'mutable_data'):
                # array_t checks the position against the shape, the unchecked proxies do not
                checked = 'unchecked_' not in q and 'array_t<' in q
                return self.call('cxx.' + nm.replace('data', 'adata' if checked else 'data'), obj, *[self.e(a) for a in args])
            if nm == 'shape':
                return ast.Subscript(value=self.n(ast.Attribute(value=obj, attr='shape', ctx=ast.Load())), slice=self.e(args[0]), ctx=ast.Load())
            if nm == 'size' and not args and re.search(r'unchecked_(mutable_)?reference<[^<>]*,\s*1>', qt(oc)):
                return ast.Subscript(value=self.n(ast.Attribute(value=obj, attr='shape', ctx=ast.Load())), slice=self.const(0), ctx=ast.Load())
            if nm in ('size', 'ndim', 'flags', 'nbytes', 'itemsize') and not args:
                return ast.Attribute(value=obj, attr=nm, ctx=ast.Load())
        if 'vector<' in q or 'initializer_list<' in q:
            if nm in ('begin', 'end', 'cbegin', 'cend'):
                return self.call('cxx.' + nm.lstrip('c'), obj)
            if nm == 'data':
                return obj
            if nm == 'size':
                return self.call('cxx.length', obj)
        return self.n(ast.Call(func=self.n(ast.Attribute(value=obj, attr=nm, ctx=ast.Load())), args=[self.e(a) for a in args], keywords=[]))

    def e_CXXOperatorCallExpr(self, n):
        f = strip(n['inner'][0])
        op = (f.get('referencedDecl') or {}).get('name', '')
        args = n['inner'][1:]
        if op == 'operator[]':
            return ast.Subscript(value=self.e(args[0]), slice=self.e(args[1]), ctx=ast.Load())
        if op == 'operator()':
            if kind(qt(args[0])) == 'arr':
                ks = [self.e(a) for a in args[1:]]
                return ast.Subscript(value=self.e(args[0]), slice=ks[0] if len(ks) == 1 else self.n(ast.Tuple(elts=ks, ctx=ast.Load())), ctx=ast.Load())
            return self.call(self.e(args[0]), *[self.e(a) for a in args[1:]])
        if op[8:] in CMP and len(args) == 2:
            return ast.Compare(left=self.e(args[0]), ops=[CMP[op[8:]]()], comparators=[self.e(args[1])])
        if op[8:] in ('+', '-') and len(args) == 2:
            if 'iterator' in qt(args[0]):
                y = self.e(args[1])
                if 'iterator' in qt(args[1]):
                    return self.call('cxx.pdiff', self.e(args[0]), y)
                return self.call('cxx.padd', self.e(args[0]), y if op[8:] == '+' else self.n(ast.UnaryOp(op=ast.USub(), operand=y)))
            return ast.BinOp(left=self.e(args[0]), op=ARITH[op[8:]](), right=self.e(args[1]))
        if op == 'operator*' and len(args) == 1:
            return ast.Subscript(value=self.e(args[0]), slice=self.const(0), ctx=ast.Load())
        if op == 'operator=':
            self.pre.append(self.assign(args[0], self.e(args[1])))
            return self.e(args[0])
        return self.call('ext_' + re.sub(r'\W', '_', op), *[self.e(a) for a in args])

    # ------------------------------------------------------------ statements
    def block(self, n):
        if n['kind'] == 'CompoundStmt':
            out = []
            for c in n.get('inner', ()):
                out += self.st(c)
            return out
        return self.st(n)

    def st(self, n):
        old = self.at
        if n.get('_at'):
            self.at = n['_at']
        save, self.pre = self.pre, []
        try:
            r = self.s(n)
            return [self.n(x) for x in self.pre + r]
        finally:
            self.pre = save
            self.at = old

    def assign(self, target, value):
        tg = self.e(target)
        if isinstance(tg, (ast.Name, ast.Subscript, ast.Attribute)):
            return self.n(ast.Assign(targets=[self.store(tg)], value=value))
        if isinstance(tg, ast.Call) and ast.unparse(tg.func) in ('cxx.padd',):
            pass
        self.bad(target, 'assignment target')

    def s(self, n):
        k = n['kind']
        if k in THROUGH:
            return self.s(n['inner'][0])
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k == 'ImplicitCastExpr' or k == 'CStyleCastExpr' or k == 'CXXFunctionalCastExpr':
            return self.s(n['inner'][0])
        x = self.e(n)
        if isinstance(x, (ast.Constant, ast.Name)):
            return []
        return [self.n(ast.Expr(value=x))]

    def s_NullStmt(self, n):
        return []

    def s_CompoundStmt(self, n):
        return self.block(n)

    def s_DeclStmt(self, n):
        out = []
        for d in n.get('inner', ()):
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl'):
                continue
            if d['kind'] != 'VarDecl':
                self.bad(d)
            init = d.get('inner', [])
            init = [c for c in init if not c['kind'].endswith('Attr')]
            t_ = qt(d)
            if re.search(r'\[[^\]]*\]$', base(t_)):
                m = re.search(r'^(.*?)\[([^\]]*)\]$', base(t_))
                vla = not m.group(2).strip().isdigit()
                if vla:
                    self.f.vlas.append((self.fn.get('name'), d.get('name'), self.at))
                    size = self.e(init[0]) if init else self.const(0)
                else:
                    size = self.const(int(m.group(2)))
                v = self.call('cxx.new', size, self.const(m.group(1).strip()))
                nm = self.declare(d)
                out.append(self.n(ast.Assign(targets=[self.store(ast.Name(id=nm))], value=v)))
                continue
            if not init:
                nm = self.declare(d)
                out.append(self.n(ast.Assign(targets=[self.store(ast.Name(id=nm))], value=self.name('cxx_uninitialised'))))
                continue
            if '&' in (d.get('type') or {}).get('qualType', '') and 'const' not in (d.get('type') or {}).get('qualType', '') \
                    and kind(t_) in ('f32', 'f64', 'int', 'bool'):
                self.bad(d, 'reference')
            v = self.e(init[0])
            if isinstance(v, ast.List) and kind(t_) in ('f32', 'f64', 'int', 'bool') and len(v.elts) == 1:
                v = v.elts[0]
            out += self.pre
            self.pre = []
            nm = self.declare(d)
            out.append(self.n(ast.Assign(targets=[self.store(ast.Name(id=nm))], value=v)))
        return out

    def s_BinaryOperator(self, n):
        if n['opcode'] == '=':
            a, b = n['inner']
            v = self.e(b)
            return [self.assign(a, v)]
        if n['opcode'] == ',':
            return self.s(n['inner'][0]) + self.s(n['inner'][1])
        return [self.n(ast.Expr(value=self.e(n)))]

    def s_CXXOperatorCallExpr(self, n):
        f = strip(n['inner'][0])
        op = (f.get('referencedDecl') or {}).get('name', '')
        if op == 'operator=':
            return [self.assign(n['inner'][1], self.e(n['inner'][2]))]
        return [self.n(ast.Expr(value=self.e(n)))]

    def s_CompoundAssignOperator(self, n):
        a, b = n['inner']
        op = n['opcode'][:-1]
        x, y = self.e(a), self.e(b)
        if kind(qt(a)) == 'ptr':
            if op == '-':
                y = self.n(ast.UnaryOp(op=ast.USub(), operand=y))
            return [self.assign(a, self.call('cxx.padd', x, y))]
        ck = kind((n.get('computeResultType') or {}).get('qualType', '') or qt(a))
        v = self.arith(op, x, y, ck)
        k = kind(qt(a))
        if k == 'f32' and ck != 'f32':
            v = self.call('cxx.f32', v)
        if k == 'int' and ck in ('f32', 'f64'):
            v = self.call('cxx.toint', v)
        if k == 'bool':
            v = self.n(ast.BoolOp(op=ast.And() if op == '&' else ast.Or(), values=[x, y]))
        return [self.assign(a, v)]

    def s_UnaryOperator(self, n):
        if n['opcode'] in ('++', '--'):
            c = n['inner'][0]
            x = self.e(c)
            one = self.const(1 if n['opcode'] == '++' else -1)
            if kind(qt(c)) == 'ptr' or 'iterator' in qt(c):
                return [self.assign(c, self.call('cxx.padd', x, one))]
            return [self.assign(c, self.n(ast.BinOp(left=x, op=ast.Add(), right=one)))]
        return [self.n(ast.Expr(value=self.e(n)))]

    def s_CallExpr(self, n):
        c = strip(n['inner'][0])
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['id'] not in self.f.fnames and c['referencedDecl']['id'] not in self.names:
            nm = c['referencedDecl'].get('name')
            if nm in ('memcpy', 'memmove', 'copy', 'copy_n', 'swap', 'fill', 'fill_n', 'memset', 'transform', 'rotate_copy'):
                return self.std_stmt(n, nm, n['inner'][1:])
        return [self.n(ast.Expr(value=self.e(n)))]

    def s_ReturnStmt(self, n):
        v = self.e(n['inner'][0]) if n.get('inner') else None
        return [self.n(ast.Return(value=v))]

    def s_BreakStmt(self, n):
        return [self.n(ast.Break())]

    def s_ContinueStmt(self, n):
        return [self.n(ast.Continue())]

    def s_CXXThrowExpr(self, n):
        if not n.get('inner'):
            return [self.n(ast.Raise(exc=None, cause=None))]
        return [self.n(ast.Raise(exc=self.e(n['inner'][0]), cause=None))]

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        pre = []
        if n.get('hasInit'):
            pre = self.s(inner.pop(0))
        if n.get('hasVar'):
            self.bad(n, 'condition variable')
        c = self.e(inner[0])
        pre = self.pre + pre
        self.pre = []
        a = self.block(inner[1])
        b = self.block(inner[2]) if len(inner) > 2 else []
        return pre + [self.n(ast.If(test=c, body=a or [self.n(ast.Pass())], orelse=b))]

    def assigned(self, n, out=None):
        """ids of variables assigned in a statement"""
        out = set() if out is None else out
        k = n.get('kind')
        if k in ('BinaryOperator',) and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and n.get('opcode') in ('++', '--')):
            x = strip(n['inner'][0])
            if x['kind'] == 'DeclRefExpr':
                out.add(x['referencedDecl']['id'])
        if k == 'UnaryOperator' and n.get('opcode') == '&':
            x = strip(n['inner'][0])
            if x['kind'] == 'DeclRefExpr':
                out.add(x['referencedDecl']['id'])
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.assigned(c, out)
        return out

    def mentioned(self, n, out=None):
        out = set() if out is None else out
        if n.get('kind') == 'DeclRefExpr':
            out.add(n['referencedDecl']['id'])
        for c in n.get('inner', ()):
            self.mentioned(c, out)
        return out

    def has_member_writes(self, n):
        return False

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n['inner']
        r = self.counted(init, cond, inc, body)
        if r is not None:
            return r
        out = self.s(init) if init.get('kind') else []
        out = self.pre + out
        self.pre = []
        if continues(body):
            self.bad(n, 'continue in a general for loop')
        test = self.e(cond) if cond.get('kind') else self.const(True)
        if self.pre:
            self.bad(n, 'effects in the loop condition')
        b = self.block(body)
        step = self.st(inc) if inc.get('kind') else []
        return out + [self.n(ast.While(test=test, body=(b + step) or [self.n(ast.Pass())], orelse=[]))]

    def counted(self, init, cond, inc, body):
        if not (init.get('kind') == 'DeclStmt' and len(init.get('inner', ())) == 1 and cond.get('kind') and inc.get('kind')):
            return None
        d = init['inner'][0]
        if d['kind'] != 'VarDecl' or kind(qt(d)) != 'int' or not d.get('inner'):
            return None
        vid = d['id']
        c = strip(cond)
        i = strip(inc)
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '!=', '>', '>='):
            return None
        a, b = strip(c['inner'][0], casts=True), c['inner'][1]
        op = c['opcode']
        if not (a['kind'] == 'DeclRefExpr' and a['referencedDecl']['id'] == vid):
            a2 = strip(c['inner'][1], casts=True)
            if a2['kind'] == 'DeclRefExpr' and a2['referencedDecl']['id'] == vid:
                b = c['inner'][0]
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
            else:
                return None
        if kind(qt(b)) != 'int':
            # compared in floating point: i < x  <->  i < ceil(x) for integers
            if kind(qt(b)) not in ('f64', 'f32'):
                return None
        ch = self.assigned(body)
        if vid in ch or (self.mentioned(b) & (ch | {vid})) or impure(b):
            return None
        step = None
        if i['kind'] == 'UnaryOperator' and i['opcode'] in ('++', '--'):
            step = 1 if i['opcode'] == '++' else -1
            tg = strip(i['inner'][0])
        elif i['kind'] == 'CompoundAssignOperator' and i['opcode'] in ('+=', '-='):
            tg = strip(i['inner'][0])
            sv = strip(i['inner'][1], casts=True)
            if sv['kind'] == 'IntegerLiteral':
                step = int(sv['value']) * (1 if i['opcode'] == '+=' else -1)
            elif i['opcode'] == '+=' and not (self.mentioned(sv) & (ch | {vid})) and kind(qt(sv)) == 'int':
                step = self.e(i['inner'][1])
            else:
                return None
        else:
            return None
        if not (tg['kind'] == 'DeclRefExpr' and tg['referencedDecl']['id'] == vid):
            return None
        neg = isinstance(step, int) and step < 0
        if (op in ('<', '<=') and neg) or (op in ('>', '>=') and not neg):
            return None
        lo = self.e(d['inner'][0])
        hi = self.e(b)
        if kind(qt(b)) in ('f64', 'f32'):
            if op == '<':
                hi = self.call('math.ceil', hi)
            elif op == '<=':
                hi = self.n(ast.BinOp(left=self.call('math.floor', hi), op=ast.Add(), right=self.const(1)))
            else:
                return None
        elif op == '<=':
            hi = self.n(ast.BinOp(left=hi, op=ast.Add(), right=self.const(1)))
        elif op == '>=':
            hi = self.n(ast.BinOp(left=hi, op=ast.Sub(), right=self.const(1)))
        pre = self.pre
        self.pre = []
        nm = self.declare(d)
        args = [lo, hi] if step == 1 else [lo, hi, self.const(step) if isinstance(step, int) else step]
        if isinstance(lo, ast.Constant) and lo.value == 0 and step == 1:
            args = [hi]
        b_ = self.block(body)
        return pre + [self.n(ast.For(target=self.store(ast.Name(id=nm)), iter=self.call('range', *args), body=b_ or [self.n(ast.Pass())], orelse=[]))]

    def s_WhileStmt(self, n):
        cond, body = n['inner'][-2:]
        test = self.e(cond)
        if self.pre:
            # effects in the condition: test at the top of an endless loop
            pre, self.pre = self.pre, []
            b = self.block(body)
            return [self.n(ast.While(test=self.const(True), body=pre + [self.n(ast.If(test=self.n(ast.UnaryOp(op=ast.Not(), operand=test)), body=[self.n(ast.Break())], orelse=[]))] + b, orelse=[]))]
        return [self.n(ast.While(test=test, body=self.block(body) or [self.n(ast.Pass())], orelse=[]))]

    def s_DoStmt(self, n):
        body, cond = n['inner']
        if continues(body):
            self.bad(n, 'continue in a do loop')
        b = self.block(body)
        test = self.e(cond)
        if self.pre:
            self.bad(n, 'effects in the loop condition')
        return [self.n(ast.While(test=self.const(True), body=b + [self.n(ast.If(test=self.n(ast.UnaryOp(op=ast.Not(), operand=test)), body=[self.n(ast.Break())], orelse=[]))], orelse=[]))]

    def s_CXXForRangeStmt(self, n):
        body = n['inner'][-1]
        var = None
        rng = None
        for c in n['inner'][:-1]:
            if c.get('kind') == 'DeclStmt':
                d = c['inner'][0]
                if d.get('name', '').startswith('__range'):
                    rng = d['inner'][0]
                elif not d.get('name', '').startswith('__'):
                    var = d
        if var is None or rng is None or ('&' in qt(var) and 'const' not in qt(var)):
            self.bad(n)
        p = self.e(rng)
        j = self.fresh('j')
        nm = self.declare(var)
        first = self.n(ast.Assign(targets=[self.store(ast.Name(id=nm))], value=self.n(ast.Subscript(value=p, slice=self.name(j), ctx=ast.Load()))))
        return [self.loop(j, self.call('cxx.length', p), [first] + self.block(body))]


def strip(n, casts=False):
    while True:
        if n['kind'] in THROUGH and n.get('inner'):
            n = n['inner'][0]
        elif n['kind'] == 'ImplicitCastExpr' and (casts or n.get('castKind') in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                                                                                'BitCast', 'UserDefinedConversion', 'ConstructorConversion',
                                                                                'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr')):
            n = n['inner'][0]
        else:
            return n


def impure(n):
    if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        nm = None
        c = strip(n['inner'][0])
        if c['kind'] == 'DeclRefExpr':
            nm = c['referencedDecl'].get('name')
        elif c['kind'] == 'MemberExpr':
            nm = c.get('name')
        if nm not in STD1 and nm not in ('min', 'max', 'size', 'pow', 'get', 'shape', 'data', 'operator[]', 'ndim'):
            # any function of the package is assumed to be without side effects on the bound only if it returns a scalar
            if kind(qt(n)) not in ('int', 'f64', 'f32'):
                return True
    if n.get('kind') == 'ArraySubscriptExpr':
        return True
    return any(impure(c) for c in n.get('inner', ()))


def continues(n):
    k = n.get('kind')
    if k == 'ContinueStmt':
        return True
    if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr'):
        return False
    return any(continues(c) for c in n.get('inner', ()))


class Memory(ast.NodeTransformer):
    """subscripts of pointers and arrays become explicit loads and stores"""

    def keep(self, n):
        return isinstance(n.value, ast.Attribute) and n.value.attr == 'shape'

    def call(self, n, f, *args):
        c = ast.Call(func=ast.Attribute(value=ast.Name(id='cxx', ctx=ast.Load()), attr=f, ctx=ast.Load()), args=list(args), keywords=[])
        for x in ast.walk(c):
            if not hasattr(x, 'lineno'):
                x._file = getattr(n, '_file', '?')
                x.lineno = x.end_lineno = getattr(n, 'lineno', 0)
                x.col_offset = x.end_col_offset = 0
        return c

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.keep(n):
            return n
        k = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        return self.call(n, 'load', n.value, *k)

    def visit_Assign(self, n):
        tg = n.targets[0]
        if isinstance(tg, ast.Subscript) and not self.keep(tg):
            v = self.visit(n.value)
            b = self.visit(tg.value)
            k = [self.visit(x) for x in (tg.slice.elts if isinstance(tg.slice, ast.Tuple) else [tg.slice])]
            e = ast.Expr(value=self.call(n, 'store', b, v, *k))
            return ast.copy_location(e, n)
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript):
            ld = ast.Subscript(value=n.target.value, slice=n.target.slice, ctx=ast.Load())
            return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=ast.BinOp(left=ld, op=n.op, right=n.value)), n))
        self.generic_visit(n)
        return n


def arguments(args):
    return ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[])


class Front:
    def __init__(self, repo=None):
        self.repo = repo or pyfront.REPO
        self.root, self.error = parse(self.repo)
        self.fnames = {}        # decl id -> dotted name
        self.gvars = {}
        self.globals_ = set()
        self.fns = {}           # dotted -> clang node
        self.classes = {}       # class template name -> {method name: node}
        self.classes_named = set()
        self.skipped = {}       # dotted -> reason
        self.vlas = []
        self.protos = {}        # dotted -> [(param name, type)]
        self.order = []
        self.exports = {}       # python name -> [dotted or None, [(argument, default term or None)]]
        self._inits = []
        self._collect(self.root, ())
        self._names()
        for n in self._inits:
            self._exports(n)

    # ------------------------------------------------------------ inventory
    def _collect(self, n, ns):
        for c in n.get('inner', ()):
            k = c['kind']
            if k == 'NamespaceDecl':
                self._collect(c, ns + (c.get('name') or '',))
            elif k == 'LinkageSpecDecl':
                continue
            elif k == 'FunctionDecl':
                self._fn(c, ns)
            elif k == 'FunctionTemplateDecl':
                for d in c.get('inner', ()):
                    if d['kind'] == 'FunctionDecl' and any(x['kind'] == 'TemplateArgument' for x in d.get('inner', ())):
                        self._fn(d, ns, c.get('name'))
            elif k == 'ClassTemplateDecl':
                for d in c.get('inner', ()):
                    if d['kind'] == 'ClassTemplateSpecializationDecl':
                        self._cls(d, ns, c.get('name'))
            elif k == 'CXXRecordDecl' and c.get('completeDefinition'):
                self._cls(c, ns, c.get('name'))
            elif k == 'VarDecl':
                self.gvars[c['id']] = (NATIVE if 'riptide' in ns else BINDING) + '.' + c['name']
                self.order.append(('var', c, ns))

    def _has_body(self, n):
        return any(c['kind'] == 'CompoundStmt' for c in n.get('inner', ()))

    def _exports(self, n):
        def walk(x):
            yield x
            for c in x.get('inner', ()):
                if isinstance(c, dict):
                    yield from walk(c)
        for c in walk(n):
            if c.get('kind') != 'CXXMemberCallExpr':
                continue
            m = strip(c['inner'][0])
            if m.get('kind') != 'MemberExpr' or m.get('name') != 'def' or len(c['inner']) < 3:
                continue
            lit = [x for x in walk(c['inner'][1]) if x.get('kind') == 'StringLiteral']
            fns = {self.fnames.get(x['referencedDecl']['id']) for x in walk(c['inner'][2]) if x.get('kind') == 'DeclRefExpr' and 'referencedDecl' in x}
            fns.discard(None)
            names, defaults = [], {}
            for a in c['inner'][3:]:
                ls = [x for x in walk(a) if x.get('kind') == 'StringLiteral']
                if 'pybind11::arg' in (qt(a) + base(qt(a))) or 'py::arg' in str(a.get('type')):
                    nm = ls[0].get('value', '').strip('"') if ls else '?'
                    names.append(nm)
                    vals = [x for x in walk(a) if x.get('kind') in ('FloatingLiteral', 'IntegerLiteral')]
                    if 'arg_v' in qt(a) or vals:
                        defaults[nm] = float(vals[0]['value']) if len(vals) == 1 else None
            if lit:
                self.exports[lit[0].get('value', '').strip('"')] = (fns.pop() if len(fns) == 1 else None, names, defaults)

    def _fn(self, n, ns, name=None):
        if n.get('name', '').startswith('pybind11_') and self._has_body(n):
            self._inits.append(n)
        if n.get('name', '').startswith(('pybind11_init', 'PyInit')):
            return
        self.order.append(('fn', n, ns))

    def _cls(self, n, ns, name):
        d = self.classes.setdefault(name, {})
        self.classes_named.add(name)
        fields = [c for c in n.get('inner', ()) if c['kind'] == 'FieldDecl']
        d.setdefault('$fields', fields)
        d.setdefault('$ns', ns)
        for c in n.get('inner', ()):
            if c['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and not c.get('isImplicit'):
                nm = '__init__' if c['kind'] == 'CXXConstructorDecl' else c.get('name')
                if self._has_body(c) and nm not in d:
                    d[nm] = c

    def class_of(self, q):
        q = q.replace('vfroot::', '').replace('riptide::', '')
        h = q.split('<')[0].strip()
        if h in self.classes:
            return h
        if h in ('Block', 'ConstBlock') and 'BlockTemplate' in self.classes:
            return 'BlockTemplate'
        return None

    def _names(self):
        groups = {}
        for k, n, ns in self.order:
            if k != 'fn':
                continue
            mod = NATIVE if 'riptide' in ns else BINDING
            groups.setdefault((mod, n['name']), []).append(n)
        self.globals_ = {nm for (m, nm) in groups} | set(self.classes)
        for (mod, nm), ns in groups.items():
            bodies = [n for n in ns if self._has_body(n)]
            sigs = {}
            for n in bodies:
                sigs.setdefault(len(self.params(n)), []).append(n)
            for n in bodies:
                k = len(self.params(n))
                q = nm
                if len(sigs) > 1:
                    # overloads are told apart by their number of parameters
                    q = '%s__%d' % (nm, k)
                same = sigs[k]
                if len(same) > 1 and same.index(n):
                    # instances of one template, or overloads for other types
                    q = '%s__T%d' % (q, same.index(n) + 1)
                dotted = mod + '.' + q
                self.fnames[n['id']] = dotted
                if dotted not in self.fns:
                    self.fns[dotted] = n
                self.globals_.add(q)
            for n in ns:
                if n['id'] not in self.fnames:
                    # declaration without a body
                    m = [b for b in bodies if len(self.params(b)) == len(self.params(n))]
                    if m:
                        self.fnames[n['id']] = self.fnames[m[0]['id']]
                p = n.get('previousDecl')
        for n in list(self.fns.values()):
            if n.get('previousDecl'):
                self.fnames.setdefault(n['previousDecl'], self.fnames[n['id']])

    def params(self, n):
        return [c for c in n.get('inner', ()) if c['kind'] == 'ParmVarDecl']

    # ------------------------------------------------------------ translation
    def function(self, n, name, method=False, ctor=False):
        tr = Tr(self, n)
        args = []
        if method:
            args.append(ast.arg(arg='self'))
        proto = []
        for p in self.params(n):
            nm = tr.declare(p)
            q = p['type'].get('desugaredQualType') or p['type']['qualType']
            k = kind(q)
            proto.append((nm, p['type']['qualType'], k))
            a = ast.arg(arg=nm)
            if k in ('ptr', 'arr') and re.search(r'\b(size_t|unsigned|uint32_t|uint64_t)\b', p['type']['qualType'] + ' ' + q):
                k += 'u'
            c = self.class_of(base(p['type']['qualType']))
            ann = {'ptr': 'cxx_ptr', 'ptru': 'cxx_ptru', 'arru': 'cxx_arru', 'int': 'cxx_uint' if not base(q).startswith('int') else 'cxx_int', 'f32': 'cxx_f32', 'f64': 'cxx_f64', 'bool': 'cxx_bool', 'arr': 'cxx_arr'}.get(k)
            if c:
                ann = 'cxx_class_' + c
            if ann:
                a.annotation = ast.Name(id=ann, ctx=ast.Load())
            args.append(a)
        body = []
        if ctor:
            for c in n.get('inner', ()):
                if c['kind'] == 'CXXCtorInitializer':
                    fd = (c.get('anyInit') or {}).get('name')
                    if fd and c.get('inner'):
                        v = tr.e(c['inner'][0])
                        body += tr.pre
                        tr.pre = []
                        body.append(tr.n(ast.Assign(targets=[tr.n(ast.Attribute(value=tr.name('self'), attr=fd, ctx=ast.Store()))], value=v)))
        comp = next(c for c in n['inner'] if c['kind'] == 'CompoundStmt')
        body += tr.block(comp)
        fd = ast.FunctionDef(name=name, args=arguments(args), body=body or [tr.n(ast.Pass())], decorator_list=[], type_params=[])
        tr.n(fd)
        fd = Memory().visit(fd)
        for x in ast.walk(fd):
            if isinstance(x, ast.stmt) and not hasattr(x, '_file'):
                x._file = tr.at[0]
        return fd, proto

    def modules(self):
        """{module name: ast.Module}"""
        out = {NATIVE: [], BINDING: []}
        mark = {}
        for nm, d in self.classes.items():
            mod = NATIVE if 'riptide' in d['$ns'] else BINDING
            body = []
            for m, n in sorted(d.items()):
                if m.startswith('$') or m.startswith('~') or m.startswith('operator'):
                    continue
                try:
                    fd, proto = self.function(n, m, method=True, ctor=(m == '__init__'))
                    body.append(fd)
                    self.protos[mod + '.' + nm + '.' + m] = proto
                except Unsupported as e:
                    self.skipped[mod + '.' + nm + '.' + m] = str(e)
            out[mod].append(ast.ClassDef(name=nm, bases=[], keywords=[], body=body or [ast.Pass()], decorator_list=[], type_params=[]))
        for q, n in self.fns.items():
            mod, nm = q.rsplit('.', 1)
            try:
                fd, proto = self.function(n, nm)
                out[mod].append(fd)
                self.protos[q] = proto
            except Unsupported as e:
                self.skipped[q] = str(e)
        for k, n, ns in self.order:
            if k == 'var' and n.get('inner'):
                q = self.gvars[n['id']]
                mod, nm = q.rsplit('.', 1)
                try:
                    tr = Tr(self, n)
                    v = tr.e([c for c in n['inner'] if not c['kind'].endswith('Attr')][0])
                    out[mod].insert(0, tr.n(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=v)))
                except (Unsupported, IndexError):
                    pass
        res = {}
        native = sorted(nm for nm, d in self.classes.items() if 'riptide' in d['$ns'])
        for mod, body in out.items():
            t = ast.Module(body=[ast.parse('import math').body[0], ast.parse('import cxx').body[0],
                                 ast.parse('import riptide').body[0]] +
                           ([ast.parse('from %s import %s' % (NATIVE, ', '.join(native))).body[0]] if mod == BINDING and native else []) + body, type_ignores=[])
            for x in ast.walk(t):
                if not hasattr(x, '_file'):
                    x._file = os.path.join(self.repo, 'riptide/cpp')
                if isinstance(x, (ast.stmt, ast.expr, ast.arg)) and not hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = 1
                    x.col_offset = x.end_col_offset = 0
            res[mod] = t
        return res


def attach(prog):
    """add the native modules to a program; returns the front end"""
    fr = Front(prog.repo)
    for mod, tree in fr.modules().items():
        src = ast.unparse(ast.fix_missing_locations(tree))
        path = os.path.join(prog.repo, 'riptide/cpp', 'python_bindings.cpp' if mod == BINDING else '')
        m = pyfront.Module(mod, path, tree, src)
        prog.modules[mod] = m
    return fr


if __name__ == '__main__':
    fr = Front()
    for mod, tree in fr.modules().items():
        print('#', mod)
        print(ast.unparse(ast.fix_missing_locations(tree)))
    print(fr.skipped, fr.vlas, fr.error)
