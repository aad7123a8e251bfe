"""Source loader: parses every module of curver under analysis and resolves names."""
import ast, os, hashlib

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(Exception):
    """The analysis cannot be carried out (a vanished anchor, an unparsable file): error exit, never a pass."""
class TooMuch(AnalysisError):
    """One request is beyond what is spent on a request."""


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods, self.attrs, self.base_exprs, self.bases = {}, {}, node.bases, []
        for item in node.body:
            if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[item.name] = item
            elif isinstance(item, ast.Assign):
                for t in item.targets:
                    if isinstance(t, ast.Name): self.attrs[t.id] = item.value
            elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name) and item.value is not None:
                self.attrs[item.target.id] = item.value


class Module:
    def __init__(self, dotted, path, source):
        self.dotted, self.path, self.source = dotted, path, source
        self.tree = ast.parse(source, path)
        self.names = {}   # name -> ('func', node) | ('class', ClassInfo) | ('mod', dotted) | ('from', dotted, name) | ('expr', node)
        self.digest = hashlib.sha256(source.encode()).hexdigest()[:16]
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', ClassInfo(s.name, self, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pkg = self.dotted.split('.')
                    if not self.path.endswith('__init__.py'): pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - (s.level - 1)]
                    base = '.'.join(pkg + ([s.module] if s.module else []))
                for a in s.names:
                    self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.names[t.id] = ('expr', s.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name): self.names[e.id] = ('unk', None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ('expr', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body); self._scan(getattr(s, 'orelse', []))
                for h in getattr(s, 'handlers', []): self._scan(h.body)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, 'curver')
        if not os.path.isdir(base): raise AnalysisError(f'no package at {base}')
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'): continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'): rel = rel[:-9]
                with open(path, encoding='utf-8') as h: src = h.read()
                try:
                    self.modules[rel] = Module(rel, path, src)
                except SyntaxError as e:
                    raise AnalysisError(f'cannot parse {path}: {e}') from e
        self.classes = {}
        for m in self.modules.values():
            for n, b in m.names.items():
                if b[0] == 'class': self.classes.setdefault(n, b[1])
        self.owner = {}       # function node -> (module, class name or None)
        self.qual = {}        # function node -> qualified name
        for m in self.modules.values():
            self._own(m, m.tree.body, None, '')
        for c in self.classes.values():
            c.bases = [self._base_name(c.module, e) for e in c.base_exprs]
        self._mro = {}
        self.subs = {}
        for c in self.classes:
            for b in self.mro(c): self.subs.setdefault(b, []).append(c)

    def _own(self, m, body, cls, prefix):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.owner[s] = (m, cls); self.qual[s] = prefix + s.name
                for inner in ast.walk(s):
                    if inner is not s and isinstance(inner, (ast.FunctionDef, ast.Lambda)):
                        if inner not in self.owner:
                            self.owner[inner] = (m, cls)
                            self.qual[inner] = prefix + s.name + '.' + getattr(inner, 'name', '<lambda>')
            elif isinstance(s, ast.ClassDef):
                self._own(m, s.body, s.name, prefix + s.name + '.')
            elif isinstance(s, (ast.If, ast.Try)):
                self._own(m, s.body, cls, prefix)
            for inner in ast.walk(s):
                if isinstance(inner, ast.Lambda) and inner not in self.owner:
                    self.owner[inner] = (m, cls); self.qual[inner] = prefix + '<lambda>'

    def _base_name(self, m, e):
        if isinstance(e, ast.Name):
            b = m.names.get(e.id)
            if b and b[0] == 'from': return b[2]
            return e.id
        if isinstance(e, ast.Attribute): return e.attr
        if isinstance(e, ast.Call):   # namedtuple('X', [...]) base.
            return '<call>'
        return '?'

    def mro(self, name):
        if name in self._mro: return self._mro[name]
        out = [name]
        c = self.classes.get(name)
        if c:
            for b in c.bases:
                for x in self.mro(b):
                    if x not in out: out.append(x)
        self._mro[name] = out
        return out

    def is_sub(self, a, b): return b in self.mro(a)

    def find_method(self, cls, name):
        """(class that defines it, node) following the MRO, or None."""
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci and name in ci.methods: return c, ci.methods[name]
        return None

    def find_attr_expr(self, cls, name):
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci and name in ci.attrs: return ci, ci.attrs[name]
        return None

    def method(self, cls, name):
        r = self.find_method(cls, name)
        if r is None: raise AnalysisError(f'anchor vanished: {cls}.{name}')
        return r[1]

    def function(self, dotted, name):
        m = self.modules.get(dotted)
        b = m and m.names.get(name)
        if not b or b[0] != 'func': raise AnalysisError(f'anchor vanished: {dotted}.{name}')
        return b[1]

    def where(self, node, line=True):
        m, c = self.owner.get(node, (None, None))
        return (os.path.relpath(m.path, self.root) if m else '?') + ':' + self.qual.get(node, '?')

    def relpath(self, m): return os.path.relpath(m.path, self.root)

    def decorators(self, node):
        out = []
        for d in getattr(node, 'decorator_list', []):
            f = d.func if isinstance(d, ast.Call) else d
            out.append((f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?'), d))
        return out
