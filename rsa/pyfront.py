"""Loading and symbol resolution of the analysed Python sources (syntax trees only: nothing is imported or run)."""
import ast
import hashlib
import os

REPO = os.environ.get('RSA_REPO', '/repo')


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.defs = {}          # top level name -> ast node (FunctionDef, ClassDef) or ('import', dotted) or ('expr', node)
        self.all_assigns = {}   # name -> list of value nodes assigned at top level
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.defs[al.asname] = ('import', al.name)
                    else:
                        self.defs[al.name.split('.')[0]] = ('import', al.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(st)
                for al in st.names:
                    self.defs[al.asname or al.name] = ('import', base + '.' + al.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', st.value)
                        self.all_assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('expr', ast.Subscript(value=st.value, slice=ast.Constant(i), ctx=ast.Load()))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.defs[st.target.id] = ('expr', st.value)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                for k in st.orelse:
                    self._scan([k])
            elif isinstance(st, ast.Try):
                self._scan(st.body)

    def _rel(self, st):
        if not st.level:
            return st.module
        parts = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))


class Program:
    """All modules of the riptide package (tests excluded)."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, 'riptide')
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__', 'cpp')]
            for f in sorted(files):
                if f.endswith('.py'):
                    self.load(os.path.join(d, f))

    def load(self, path):
        rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
        if rel.endswith('.__init__'):
            rel = rel[:-9]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            n._file = path
        self.modules[rel] = Module(rel, path, tree, src)
        return self.modules[rel]

    def add_source(self, name, src, path='<spec>'):
        """register a reference module; relative names resolve as if it were part of the program"""
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            n._file = path
        self.modules[name] = Module(name, path, tree, src)
        return self.modules[name]

    def resolve(self, dotted, depth=0):
        """dotted -> ('func'|'class'|'expr'|'module', Module, node|None, canonical dotted) or None when external"""
        if depth > 10:
            return None
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            mn = '.'.join(parts[:k])
            m = self.modules.get(mn)
            if m is None:
                continue
            rest = parts[k:]
            if not rest:
                return ('module', m, None, mn)
            d = m.defs.get(rest[0])
            if d is None:
                return None
            if isinstance(d, tuple) and d[0] == 'import':
                return self.resolve('.'.join([d[1]] + rest[1:]), depth + 1)
            if len(rest) == 1:
                if isinstance(d, ast.FunctionDef):
                    return ('func', m, d, mn + '.' + rest[0])
                if isinstance(d, ast.ClassDef):
                    return ('class', m, d, mn + '.' + rest[0])
                return ('expr', m, d[1], mn + '.' + rest[0])
            if len(rest) == 2 and isinstance(d, ast.ClassDef):
                for s in d.body:
                    if isinstance(s, ast.FunctionDef) and s.name == rest[1]:
                        return ('method', m, (d, s), dotted)
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == rest[1] for t in s.targets):
                        return ('classattr', m, (d, s.value), dotted)
            return None
        return None

    def external_name(self, dotted):
        """canonical dotted name of something imported from outside the package"""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            mn = '.'.join(parts[:k])
            m = self.modules.get(mn)
            if m is None:
                continue
            rest = parts[k:]
            if not rest:
                return dotted
            d = m.defs.get(rest[0])
            if isinstance(d, tuple) and d[0] == 'import':
                return self.external_name('.'.join([d[1]] + rest[1:]))
            return dotted
        return dotted

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if not self.modules[n].path.startswith('<'):
                h.update(n.encode())
                h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
