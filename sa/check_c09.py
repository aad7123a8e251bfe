"""C09: computations are deterministic and free of side effects.

Every construct of the kernel and the loaders is looked at: nothing may reach files, the environment, the clock, randomness
(but for choosing random words), addresses, the display or global state.  And every operation is interpreted abstractly to
find sets whose members hash differently from run to run (names, objects hashed by address) and to see that nothing depends
on the order in which such a set is gone through."""
import ast
from dom import *
from api import Api
from repo import AnalysisError
from sweep import sweep
from report import parallel
import entries as E

PURE = {'numbers', 'numpy', 'networkx', 'realalg', 'fractions', 'collections', 'itertools', 'functools', 'operator', 'math', 'cmath', 'bisect', 'queue', 'string', 're', 'copy', 'inspect', 'decorator', 'abc',
        'typing', 'dataclasses', 'enum', 'heapq', 'contextlib', 'types', 'textwrap', 'warnings', '__future__', 'statistics', 'decimal', 'importlib', 'copyreg', 'pickle', 'base64', 'struct', 'array', 'keyword', 'hashlib', 'sympy', 'scipy', 'graphlib', 'zlib', 'binascii', 'unicodedata', 'json', 'pprint'}
WORLD = {'os': 'the operating system', 'sys': 'the interpreter', 'io': 'files', 'time': 'the clock', 'datetime': 'the clock', 'calendar': 'the clock', 'random': 'randomness', 'secrets': 'randomness', 'uuid': 'randomness', 'socket': 'the network',
         'subprocess': 'other processes', 'multiprocessing': 'other processes', 'threading': 'other threads', 'concurrent': 'other threads', 'asyncio': 'other tasks', 'signal': 'signals', 'tempfile': 'files', 'pathlib': 'files', 'shutil': 'files', 'glob': 'files',
         'shelve': 'files', 'dbm': 'files', 'sqlite3': 'files', 'getpass': 'the environment', 'platform': 'the environment', 'locale': 'the environment', 'gc': 'the interpreter', 'weakref': 'the lifetime of objects', 'ctypes': 'memory', 'tkinter': 'the display', 'Tkinter': 'the display',
         'matplotlib': 'the display', 'PIL': 'the display', 'turtle': 'the display', 'logging': 'logs', 'atexit': 'the interpreter', 'urllib': 'the network', 'http': 'the network', 'requests': 'the network', 'site': 'the interpreter', 'sysconfig': 'the environment', 'traceback': 'the interpreter', 'linecache': 'files', 'fileinput': 'files', 'builtins': 'the interpreter', 'resource': 'the interpreter', 'webbrowser': 'the display'}
BUILTIN = {'open': 'files', 'print': 'the display', 'input': 'the display', 'id': 'object addresses', 'exec': 'the interpreter', 'eval': 'the interpreter', '__import__': 'the interpreter', 'globals': 'global state', 'breakpoint': 'the display', 'exit': 'the interpreter', 'quit': 'the interpreter', 'help': 'the display'}
# parts of pure modules that are not
WITHIN = {('numpy', 'random'): 'randomness', ('numpy', 'save'): 'files', ('numpy', 'savez'): 'files', ('numpy', 'savetxt'): 'files', ('numpy', 'load'): 'files', ('numpy', 'loadtxt'): 'files', ('numpy', 'fromfile'): 'files', ('numpy', 'memmap'): 'files', ('numpy', 'genfromtxt'): 'files',
          ('numpy', 'set_printoptions'): 'global state', ('numpy', 'seterr'): 'global state', ('numpy', 'empty'): 'memory that was not initialised', ('numpy', 'empty_like'): 'memory that was not initialised', ('inspect', 'stack'): 'its callers', ('inspect', 'currentframe'): 'its callers', ('inspect', 'getsource'): 'files', ('inspect', 'getfile'): 'files',
          ('decimal', 'getcontext'): 'global state', ('decimal', 'setcontext'): 'global state', ('warnings', 'simplefilter'): 'global state', ('warnings', 'filterwarnings'): 'global state', ('importlib', 'reload'): 'global state', ('networkx', 'draw'): 'the display', ('pickle', 'dump'): 'files', ('pickle', 'load'): 'files', ('json', 'dump'): 'files', ('json', 'load'): 'files'}
DRAWS = {'choice', 'choices', 'sample', 'randrange', 'randint', 'random', 'shuffle', 'uniform'}

class Effects:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.modules = {n: m for n, m in repo.modules.items() if n == 'curver' or n == 'curver.load' or n.startswith('curver.kernel')}
        if 'curver.kernel' not in self.modules: raise AnalysisError('there is no kernel')
    def all(self):
        self.users = self.mentions()
        for name, m in sorted(self.modules.items()): self.module(name, m)
        Shared(self).all()
        self.imports()
    # ---- what names mean
    def bound(self, m, fn_chain):
        """name -> external dotted thing, from the imports that are in sight."""
        out = {}
        def put(s):
            if isinstance(s, ast.Import):
                for a in s.names: out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom) and not s.level and s.module and s.module.split('.')[0] != 'curver':
                for a in s.names: out[a.asname or a.name] = s.module + '.' + a.name
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Import, ast.ImportFrom)): put(s)
        return out
    def mentions(self):
        """Which functions mention each name as a name or attribute."""
        out = {}
        for m in self.repo.modules.values():
            def go(node, fn):
                for c in ast.iter_child_nodes(node):
                    f = c if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)) and not (isinstance(node, (ast.FunctionDef,)) ) else fn
                    if isinstance(c, ast.Name): out.setdefault(c.id, set()).add(fn and fn.name)
                    elif isinstance(c, ast.Attribute): out.setdefault(c.attr, set()).add(fn and fn.name)
                    go(c, f)
            go(m.tree, None)
        return out
    def random_only(self, name, seen=()):
        """This function only ever runs to choose a random word."""
        if name == 'random_word': return True
        if name in seen or name is None: return name in seen
        us = self.users.get(name, set()) - {name}
        return bool(us) and all(u is not None and self.random_only(u, seen + (name,)) for u in us)
    def module(self, name, m):
        rep = self.rep
        names = self.bound(m, None)
        rel = m.path if not m.path.startswith(self.repo.root) else m.path[len(self.repo.root) + 1:]
        def walk(node, fn, cls):
            for c in ast.iter_child_nodes(node):
                f, k2 = fn, cls
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if fn is None or True: f = c if fn is None else fn
                    rep.count('functions')
                if isinstance(c, ast.ClassDef): k2 = c
                self.construct(c, f, k2, names, rel, m)
                walk(c, f, k2)
        rep.count('modules')
        walk(m.tree, None, None)
    def say(self, rel, cls, fn, what, node):
        self.rep.finding('effect', f'{rel}:{cls.name + "." if cls else ""}{fn.name if fn else "<module>"}', what, getattr(node, 'lineno', 0))
    def construct(self, c, fn, cls, names, rel, m):
        rep = self.rep
        rep.count('constructs')
        local = lambda n: fn is not None and n in locals_of(fn)
        if isinstance(c, (ast.Import, ast.ImportFrom)):
            if isinstance(c, ast.ImportFrom) and c.level: return
            for a in c.names:
                mod = (c.module or '') if isinstance(c, ast.ImportFrom) else a.name
                rep.count('imports')
                if mod.split('.')[0] == 'curver':
                    if (mod + '.' + a.name if isinstance(c, ast.ImportFrom) else mod).startswith('curver.application') and not rel.endswith('curver/__init__.py'): self.say(rel, cls, fn, 'it uses the graphical application', c)
                    continue
                root = mod.split('.')[0]
                if root == 'random': continue          # its uses are looked at
                if root in WORLD: self.say(rel, cls, fn, f'it reaches {WORLD[root]} through {root}', c)
                elif root not in PURE: rep.count('unknown imports'); rep.note(f'{rel}: nothing is known of {root}')
                elif isinstance(c, ast.ImportFrom) and (root, a.name) in WITHIN: self.say(rel, cls, fn, f'it reaches {WITHIN[root, a.name]} through {root}.{a.name}', c)
            return
        d = dotted(c) if isinstance(c, (ast.Attribute, ast.Name)) and isinstance(c.ctx, ast.Load) else None
        if d and d.split('.')[0] in names and not local(d.split('.')[0]):
            d = names[d.split('.')[0]] + d[len(d.split('.')[0]):]
            ps = d.split('.')
            rep.count('uses of other libraries')
            if ps[0] == 'random':
                if len(ps) > 1:
                    if not (fn is not None and self.random_only(fn.name)): self.say(rel, cls, fn, f'it depends on randomness ({d})', c)
                    elif ps[1] not in DRAWS: self.say(rel, cls, fn, f'it alters the source of randomness ({d})', c)
            elif ps[0] in PURE:
                if len(ps) > 1 and (ps[0], ps[1]) in WITHIN: self.say(rel, cls, fn, f'it reaches {WITHIN[ps[0], ps[1]]} through {d}', c)
                elif any(p in ('os', 'sys', 'environ') for p in ps[1:]): self.say(rel, cls, fn, f'it reaches {WORLD["os"]} through {d}', c)
                elif ps[0] == 'networkx' and len(ps) > 1 and (ps[1].startswith(('write_', 'read_', 'draw')) or 'random' in ps[1]): self.say(rel, cls, fn, f'it reaches something outside through {d}', c)
        if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id in BUILTIN and c.id not in names and not local(c.id) and c.id not in m.names: self.say(rel, cls, fn, f'it reaches {BUILTIN[c.id]} through {c.id}', c)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('__hash__', '__repr__') and isinstance(c.func.value, ast.Name) and c.func.value.id == 'object': self.say(rel, cls, fn, f'it reaches object addresses through object.{c.func.attr}', c)
        if isinstance(c, ast.Global): self.say(rel, cls, fn, f'it writes the global {", ".join(c.names)}', c)
        if isinstance(c, ast.Attribute) and c.attr == '__file__': self.say(rel, cls, fn, 'it reads files through __file__', c)
        if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)) and fn is not None and 'decorators' not in m.dotted:
            v = c.value
            of_class = isinstance(v, ast.Name) and (v.id == 'cls' or v.id in self.repo.classes or v.id in names or m.names.get(v.id, ('',))[0] in ('func', 'class', 'mod', 'from')) and not (local(v.id) and v.id != 'cls')
            of_class = of_class or isinstance(v, ast.Attribute) and v.attr == '__class__' or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'type'
            d2 = dotted(v) if isinstance(v, ast.Attribute) else None
            of_class = of_class or bool(d2) and d2.split('.')[0] == 'curver' and not local('curver')
            if of_class: self.say(rel, cls, fn, f'it assigns {c.attr} of a class or module', c)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('seed', 'setstate') and isinstance(c.func.value, ast.Name) and names.get(c.func.value.id, '') == 'random': self.say(rel, cls, fn, 'it alters the source of randomness', c)
    def imports(self):
        """Nothing that importing the library runs needs a display."""
        seen, todo = set(), ['curver']
        while todo:
            n = todo.pop()
            if n in seen or n not in self.repo.modules: continue
            seen.add(n)
            m = self.repo.modules[n]
            rel = m.path[len(self.repo.root) + 1:] if m.path.startswith(self.repo.root) else m.path
            for s in at_import(m.tree.body):
                if isinstance(s, ast.Import): mods = [a.name for a in s.names]
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        pkg = n.split('.') if m.path.endswith('__init__.py') else n.split('.')[:-1]
                        base = '.'.join(pkg[:len(pkg) - (s.level - 1)] + ([s.module] if s.module else []))
                    mods = [base] + [base + '.' + a.name for a in s.names]
                else: continue
                for x in mods:
                    self.rep.count('imports followed')
                    if x.split('.')[0] in ('tkinter', 'Tkinter', 'matplotlib', 'PIL', 'turtle') or x.startswith('curver.application'):
                        self.rep.finding('import', f'{rel}:<module>', f'importing the library imports {".".join(x.split(".")[:2])}, which needs a display', s.lineno)
                    for i in range(1, len(x.split('.')) + 1): todo.append('.'.join(x.split('.')[:i]))

# ---- state that outlives a call
FROZEN = {'tuple', 'frozenset', 'int', 'str', 'float', 'bool', 'bytes', 'complex', 'compile', 'namedtuple', 'Fraction', 'TypeVar', 'partial', 'getLogger', 'property', 'classmethod', 'staticmethod', 'itemgetter', 'attrgetter', 'methodcaller', 'decorator', 'type', 'object', 'range', 'Enum', 'NewType', 'slice', 'len', 'max', 'min', 'sum', 'MappingProxyType'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'add', 'discard', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'fill', 'resize', 'appendleft', 'extendleft', 'popleft', 'rotate', 'put', 'get_nowait', 'put_nowait', 'subtract', 'move_to_end', '__setitem__', '__delitem__', '__setattr__', '__iadd__', '__ior__', '__next__', 'send'}
def mutable(e):
    """Whether what this expression makes can be changed later."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)): return True
    if isinstance(e, ast.Call):
        f = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        return f is not None and f not in FROZEN
    if isinstance(e, ast.BinOp): return mutable(e.left) or mutable(e.right)
    if isinstance(e, (ast.IfExp, ast.BoolOp)): return any(mutable(x) for x in ast.iter_child_nodes(e))
    return False
class Shared:
    """Module-level, class-level, function-level and default objects, and where functions change them."""
    def __init__(self, effects):
        self.ef, self.repo, self.rep = effects, effects.repo, effects.rep
        self.globals_, self.classes, self.instance = {}, {}, {}
        for n, m in self.repo.modules.items():
            self.globals_[n] = {}
            for s in at_import(m.tree.body):
                if isinstance(s, ast.ClassDef): continue
                for t, v in self.assigned(s): self.globals_[n][t] = self.globals_[n].get(t, False) or mutable(v)
            for s in ast.walk(m.tree):
                if isinstance(s, ast.ClassDef):
                    d = self.classes.setdefault(s.name, {})
                    for x in s.body:
                        for t, v in self.assigned(x): d[t] = d.get(t, False) or mutable(v)
                    stores = self.instance.setdefault(s.name, set())
                    for x in ast.walk(s):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): stores.add(x.attr)
    def assigned(self, s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name): yield t.id, s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name): yield s.target.id, s.value
    def family(self, c):
        return [d for d in self.repo.classes if d == c or self.repo.is_sub(d, c) or self.repo.is_sub(c, d)]
    def of_class(self, c, attr):
        return c in self.repo.classes and any(self.classes.get(d, {}).get(attr) for d in self.repo.classes if d == c or self.repo.is_sub(c, d))
    def of_instances(self, c, attr):
        return self.of_class(c, attr) and not any(attr in self.instance.get(d, ()) for d in self.family(c))
    def function(self, fn, m, cls):
        """Constructs of fn that change something shared: (node, what)."""
        args = [*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs]
        first = fn.args.args[0].arg if fn.args.args else None
        own = list(self.own(fn))
        stored = {x.id for x in own if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        declared = {n for x in own if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        params = {a.arg for a in args} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        local = (stored | params) - declared
        defaults = {}
        pos = fn.args.posonlyargs + fn.args.args
        for a, d in [*zip(reversed(pos), reversed(fn.args.defaults)), *((a, d) for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None)]:
            if mutable(d) and a.arg not in stored: defaults[a.arg] = True
        names = {a.asname or a.name.split('.')[0]: a.name for s in ast.walk(m.tree) if isinstance(s, ast.Import) for a in s.names}
        alias = {}
        def is_class(e):
            if isinstance(e, ast.Name):
                if e.id == first and cls is not None and 'classmethod' in [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]: return cls
                return e.id if e.id in self.repo.classes and e.id not in local else None
            if isinstance(e, ast.Attribute):
                if e.attr == '__class__': return cls if isinstance(e.value, ast.Name) and e.value.id == first else '?'
                d = dotted(e)
                return e.attr if d and d.split('.')[0] == 'curver' and 'curver' not in local and e.attr in self.repo.classes else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1: return cls if isinstance(e.args[0], ast.Name) and e.args[0].id == first else '?'
            return None
        def callable_(e):
            if isinstance(e, ast.Name): return e.id not in local and m.names.get(e.id, ('',))[0] == 'func'
            if isinstance(e, ast.Attribute) and e.attr in ('__func__', '__wrapped__', '__code__', '__globals__', '__defaults__', '__kwdefaults__'): return True
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == first and cls is not None: return self.repo.find_method(cls, e.attr) is not None
            return False
        def shared(e):
            if isinstance(e, ast.Name):
                if e.id in alias: return alias[e.id]
                if e.id in defaults: return f'the default value of {e.id}'
                if e.id not in local and self.globals_[m.dotted].get(e.id): return f'the module-level {e.id}'
                if e.id not in local and e.id in m.names and m.names[e.id][0] == 'from':
                    for n, g in self.globals_.items():
                        if g.get(e.id) and e.id not in self.globals_[m.dotted]: return f'the module-level {e.id}'
                return None
            if isinstance(e, ast.Attribute):
                c = is_class(e.value)
                if c and c != '?' and self.of_class(c, e.attr): return f'the class-level {e.attr}'
                if isinstance(e.value, ast.Name) and e.value.id == first and cls is not None and self.of_instances(cls, e.attr): return f'the class-level {e.attr}'
                if e.attr == '__dict__' and (c or callable_(e.value)): return 'the attributes of a class or function'
                d = dotted(e)
                if d and d.split('.')[0] not in local and (d.split('.')[0] == 'curver' or d.split('.')[0] in m.names):
                    for n, g in self.globals_.items():
                        if g.get(e.attr) and (d.rsplit('.', 1)[0] == n or d.rsplit('.', 1)[0].split('.')[-1] == n.split('.')[-1]): return f'the module-level {e.attr}'
                if callable_(e.value): return 'an attribute of a function'
                return None
            if isinstance(e, ast.Subscript): return shared(e.value)
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'values', 'items'): return shared(e.func.value)
                if isinstance(e.func, ast.Name) and e.func.id in ('globals',): return 'the globals'
                if isinstance(e.func, ast.Name) and e.func.id == 'vars' and e.args: return 'the attributes of a class' if is_class(e.args[0]) or callable_(e.args[0]) else shared(e.args[0])
                if isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant): return shared(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()))
            if isinstance(e, ast.NamedExpr): return shared(e.value)
            return None
        for _ in range(3):
            for x in own:
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and all_of(own, t.id, shared): alias[t.id] = shared(x.value) or alias.get(t.id)
        alias = {n: v for n, v in alias.items() if v}
        for x in own:
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                w = shared(x.value)
                if w: yield x, w
                elif isinstance(x, ast.Attribute) and callable_(x.value) and not isinstance(x.value, ast.Name): yield x, 'an attribute of a function'
                elif isinstance(x, ast.Attribute) and callable_(x.value): yield x, 'an attribute of a function'
            if isinstance(x, ast.AugAssign) and isinstance(x.target, (ast.Name,)) and shared(x.target) and x.target.id not in local: yield x, shared(x.target)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and (x.target.id in alias): yield x, alias[x.target.id]
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                w = shared(x.func.value)
                if w: yield x, w
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr', 'next') and x.args:
                w = shared(x.args[0]) or (('an attribute of a class' if is_class(x.args[0]) else 'an attribute of a function' if callable_(x.args[0]) else None) if x.func.id != 'next' else None)
                if w: yield x, w
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('heappush', 'heappop', 'insort', 'insort_left', 'insort_right') and x.args and shared(x.args[0]): yield x, shared(x.args[0])
    def own(self, fn):
        """The nodes of fn, not those of functions within it."""
        todo = list(fn.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): continue
            todo += ast.iter_child_nodes(x)
    def all(self):
        for n, m in sorted(self.ef.modules.items()):
            if n.endswith('decorators'): continue              # the caches are C06's
            rel = m.path[len(self.repo.root) + 1:] if m.path.startswith(self.repo.root) else m.path
            def go(node, cls, outer):
                for c in ast.iter_child_nodes(node):
                    k2, o = cls, outer
                    if isinstance(c, ast.ClassDef): k2 = c
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        o = outer or c
                        self.rep.count('functions searched for shared state')
                        for x, w in self.function(c, m, k2.name if k2 is not None else None): self.ef.say(rel, k2, o, f'it changes {w}', x)
                    go(c, k2, o)
            go(m.tree, None, None)
def all_of(own, name, shared):
    """Every plain assignment to name gives it something shared."""
    vs = [x.value for x in own if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)]
    stores = sum(1 for x in own if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store))
    return stores == len(vs) and all(shared(v) for v in vs)

def at_import(body):
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
        yield s
        for n in ('body', 'orelse', 'finalbody'): yield from at_import(getattr(s, n, []) or [])
        for h in getattr(s, 'handlers', []) or []: yield from at_import(h.body)
def dotted(e):
    if isinstance(e, ast.Name): return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
_loc = {}
def locals_of(fn):
    if id(fn) not in _loc:
        out = {a.arg for f in ast.walk(fn) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in [*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs, *([f.args.vararg] if f.args.vararg else []), *([f.args.kwarg] if f.args.kwarg else [])]}
        out |= {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        _loc[id(fn)] = (fn, out)
    return _loc[id(fn)][1]

# ---- the order of sets
SAME = {'sorted', 'set', 'frozenset', 'any', 'all', 'sum', 'len', 'min', 'max', 'bool', 'Counter', 'dict'}
SAME_METHODS = {'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'fromkeys', 'add_nodes_from'}
ORDERED = {'list', 'tuple', 'iter', 'enumerate', 'zip', 'reversed', 'map', 'filter', 'islice', 'chain', 'join', 'array', 'product', 'combinations', 'permutations', 'extend', 'accumulate', 'cycle', 'groupby', 'deque'}
class Orders(Api):
    """Notes the sets that are gone through whose members hash by name or address."""
    seen = None
    def unstable(self, v, st, depth=0):
        """Why the members v hash differently from run to run, or None."""
        for x in v or ():
            if isinstance(x, Str) or isinstance(x, K) and x.ty == 'str' and x.v: return 'names'
            if isinstance(x, K) and x.ty == 'bytes': return 'names'
            if isinstance(x, (Fn, BM)): return 'functions'
            c = x.cls if isinstance(x, Obj) else None
            if isinstance(x, Ref):
                r = st.heap[x.oid]
                if r.kind in ('tuple', 'set') and depth < 3:
                    for y in (r.items if r.items is not None else [r.elem]):
                        w = self.unstable(y, st, depth + 1)
                        if w: return w
                c = r.cls if r.kind == 'inst' else None
            if c in self.repo.classes and not any(self.repo.find_method(c, n) for n in ('__hash__', '__eq__')) and not any('namedtuple' in str(ast.dump(b)) for k2 in self.repo.mro(c) if k2 in self.repo.classes for b in self.repo.classes[k2].base_exprs): return f'objects of class {c}, hashed by address'
        return None
    def note(self, x, st, node):
        if isinstance(x, Ref) and st.heap[x.oid].kind == 'set':
            r = st.heap[x.oid]
            self.sets += 1
            if r.items is not None and len(r.items) < 2: return
            why = None
            for y in (r.items if r.items is not None else [r.elem]): why = why or self.unstable(y, st)
            if why: self.seen.append((node, why, self.stack[-1].node))
    sets = 0
    def iterate(self, v, st, node):
        if self.seen is None: self.seen = []
        for x in v or (): self.note(x, st, node)
        return super().iterate(v, st, node)
    def x_iter(self, a, kw, st, node, sp):
        if self.seen is None: self.seen = []
        for x in (a[0] if a else ()): self.note(x, st, node)
        return super().x_iter(a, kw, st, node, sp)

    def x_hash(self, a, kw, st, node, sp):
        if self.seen is None: self.seen = []
        if a and not any(getattr(x.node, 'name', '') == '__hash__' for x in self.stack):
            w = self.unstable(a[0], st)
            if w: self.hashed.append((node, w, self.stack[-1].node))
        return super().x_hash(a, kw, st, node, sp)
    def keyed_by_hash(self, a, kw, st, node):
        if any(isinstance(x, Ext) and x.name in ('hash', 'id') for x in kw.get('key') or ()) and a:
            it = self.items_of(a[0], st, node)
            w = 'objects' if any(x.name == 'id' for x in kw['key'] if isinstance(x, Ext)) else None
            for y in (it[1] if it[0] == 'items' else [it[1]]): w = w or self.unstable(y, st)
            if w: self.hashed.append((node, w, self.stack[-1].node))
    def x_sorted(self, a, kw, st, node, sp):
        self.keyed_by_hash(a, kw, st, node)
        return super().x_sorted(a, kw, st, node, sp)
    def x_min(self, a, kw, st, node, sp):
        self.keyed_by_hash(a, kw, st, node)
        return super().x_min(a, kw, st, node, sp)
    def x_max(self, a, kw, st, node, sp):
        self.keyed_by_hash(a, kw, st, node)
        return super().x_max(a, kw, st, node, sp)
    def m_set_pop(self, x, r, a, kw, st, node):
        if self.seen is None: self.seen = []
        self.note(x, st, node)
        return super().m_set_pop(x, r, a, kw, st, node)
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.hashed = []

def fname(c): return c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
class Context:
    """Whether what is done with a set depends on its order."""
    def __init__(self, repo):
        self.parent, self.repo, self.functions, self.named = {}, repo, {}, set()
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef): self.functions.setdefault(n.name, []).append(n)
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and fname(n.value) == 'namedtuple': self.named |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n): self.parent[id(c)] = n
    def function(self, n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)): n = self.parent.get(id(n))
        return n
    def keyed(self, call): return any(k2.arg == 'key' for k2 in call.keywords)
    def weak(self, call):
        """The key given to sorted, min or max does not tell all members apart."""
        key = next(k2.value for k2 in call.keywords if k2.arg == 'key')
        return isinstance(key, ast.Name) and key.id == 'len' or isinstance(key, ast.Lambda) and (isinstance(key.body, ast.Constant) or isinstance(key.body, ast.Call) and isinstance(key.body.func, ast.Name) and key.body.func.id == 'len' or isinstance(key.body, ast.UnaryOp))
    def consumed(self, e):
        """Does what an ordered value e is used for depend on its order?  True, False or None."""
        p = self.parent.get(id(e))
        if isinstance(p, ast.Call) and e in p.args: return self.call(p, e)
        if isinstance(p, ast.keyword): return self.passed(self.parent[id(p)], fname(self.parent[id(p)]), e)
        if isinstance(p, ast.Starred): return self.consumed(p)
        if isinstance(p, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and e in p.comparators: return False
        if isinstance(p, ast.comprehension): return self.comp(p)
        if isinstance(p, ast.For): return self.loop(p)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name): return self.later(p.targets[0].id, p)
        if isinstance(p, ast.Set): return False
        return True
    def call(self, c, arg=None):
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'pop' and arg is None:
            return not self.singled(c)
        f = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
        if isinstance(c.func, ast.Attribute) and f in SAME_METHODS: return False
        if f in ('sorted', 'min', 'max'): return self.weak(c) if self.keyed(c) else False
        if f in SAME: return False
        if f in ORDERED: return self.consumed(c) if f != 'extend' else self.extended(c)
        if f == 'next': return True
        return self.passed(c, f, arg) if arg is not None else None
    def singled(self, call):
        """The popped set is only popped when it has one member, or its members are all popped in turn for something without order."""
        s = call.func.value
        fn = self.function(call)
        if fn is None or not isinstance(s, ast.Name): return False
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.While, ast.Assert)) and any(isinstance(y, ast.Name) and y.id == s.id for y in ast.walk(n.test)): return True
        return False
    depth = 0
    def passed(self, c, f, arg):
        """Whether the order matters to the function that is called."""
        if f in ('compile', 'match', 'search', 'findall', 'sub', 'fullmatch', 'split'): return True
        if f in self.named: return True
        if self.depth > 3 or arg not in c.args and arg not in [k2.value for k2 in c.keywords]: return None
        fns = [n for n in self.functions.get(f, ())] if f not in self.repo.classes else [m[1] for m in [self.repo.find_method(f, '__init__')] if m]
        if len(fns) != 1: return None
        fn = fns[0]
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        if fn in self.repo.owner and self.repo.owner[fn][1] is not None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list): ps = ps[1:]
        if arg in c.args:
            i = c.args.index(arg)
            if i >= len(ps): return None
            name = ps[i]
        else: name = next(k2.arg for k2 in c.keywords if k2.value is arg)
        if name is None: return None
        self.depth += 1
        try: return self.later(name, fn.body[0])
        finally: self.depth -= 1
    def extended(self, c): return self.later(c.func.value.id, c) if isinstance(c.func.value, ast.Name) else None
    def later(self, name, at):
        """Does the order of the list of this name matter to what is done with it?"""
        fn = self.function(at)
        if fn is None: return None
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and isinstance(n.func.value, ast.Name) and n.func.value.id == name and not self.keyed(n): return False
        out = False
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                p = self.parent.get(id(n))
                if isinstance(p, ast.Attribute) and p.attr in ('append', 'extend', 'add'): continue
                if isinstance(p, ast.Return): out = True; continue
                if isinstance(p, (ast.If, ast.While, ast.BoolOp, ast.UnaryOp)): continue
                r = self.consumed(n)
                if r is None: r = None if not out else True
                if r: out = True
                elif r is None and not out: out = None
        return out
    def comp(self, g):
        e = self.parent.get(id(g))
        if isinstance(e, ast.SetComp): return False
        if isinstance(e, ast.DictComp): return False
        return self.consumed(e)
    def loop(self, s):
        inside = {id(n) for b in s.body for n in ast.walk(b)}
        fn = self.function(s)
        def after(name): return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn)) if fn is not None else True
        def stmt(b):
            if isinstance(b, (ast.Pass, ast.Continue, ast.Raise, ast.Assert)): return False
            if isinstance(b, ast.If): return any_(b.body + b.orelse)
            if isinstance(b, ast.For): return any_(b.body + b.orelse)
            if isinstance(b, ast.AugAssign): return False if isinstance(b.op, (ast.BitOr, ast.BitAnd, ast.Mult)) or isinstance(b.op, (ast.Add, ast.Sub)) and not isinstance(b.value, (ast.List, ast.ListComp, ast.Tuple, ast.JoinedStr)) else True
            if isinstance(b, ast.Assign):
                if all(isinstance(t, ast.Subscript) for t in b.targets): return False
                if all(isinstance(t, ast.Name) for t in b.targets): return any(after(t.id) for t in b.targets) and not isinstance(b.value, ast.Constant)
                return None
            if isinstance(b, ast.Return): return not (b.value is None or isinstance(b.value, ast.Constant))
            if isinstance(b, ast.Break): return None
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield): return True
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute):
                if b.value.func.attr in ('add', 'discard', 'remove', 'setdefault') or b.value.func.attr in SAME_METHODS: return False
                if b.value.func.attr in ('append', 'extend', 'insert', 'put'): return self.later(b.value.func.value.id, b) if isinstance(b.value.func.value, ast.Name) else None
            return None
        def any_(bs):
            rs = [stmt(b) for b in bs]
            return True if True in rs else None if None in rs else False
        return any_(s.body + s.orelse)
    def judge(self, node):
        if isinstance(node, ast.For): return self.loop(node)
        if isinstance(node, ast.comprehension): return self.comp(node)
        if isinstance(node, ast.Call): return self.call(node)
        if isinstance(node, ast.Starred): return self.consumed(node)
        if isinstance(node, (ast.Assign, ast.Tuple, ast.List)): return True
        return None

def one_entry(repo, rep, ctx, e, I):
    rep.count('sets gone through', I.sets)
    for node, why, fnode in I.hashed:
        p = ctx.parent.get(id(node))
        if isinstance(p, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq)) for o in p.ops): continue
        fn = fnode if repo.qual.get(fnode) else ctx.function(ctx.parent.get(id(fnode)))
        rep.finding('order', repo.where(fn) if fn in repo.owner else repo.qual.get(fn, '<lambda>'), f'the hash or address of {why} is used', getattr(node, 'lineno', 0))
    for node, why, fnode in (I.seen or ()):
        rep.count('sets of unstable order')
        r = ctx.judge(node)
        if r is None: rep.count('undecided orders'); continue
        if r:
            fn = fnode if repo.qual.get(fnode) else ctx.function(node)
            q = repo.qual.get(fn, getattr(fn, 'name', '<lambda>'))
            rep.finding('order', repo.where(fn) if fn in repo.owner else q, f'the order in which a set of {why} is gone through matters', getattr(node, 'lineno', getattr(getattr(node, 'iter', None), 'lineno', 0)))

def words(repo, rep):
    """A word that is written out names one mapping class: nothing is drawn."""
    import check_c13 as W
    e = next((x for x in E.entries(repo, all_=True) if x.cls == 'MappingClassGroup' and x.node.name == 'mapping_class'), None)
    if e is None: return
    for w in ['5', '12', '-3', '', 'ab'] + W.GOODWORDS + [['a', 'b'], ('a',), [], ['A', '5']]:
        I = Api(repo, fields=W.AB.copy())
        drawn = []
        def ext(I, name, *a):
            if name.startswith('random.'): drawn.append(name)
        I.hooks['ext'] = ext
        I.contracts['MappingClassGroup.random_word'] = lambda I, st, f, a, kw, n: drawn.append('a random word')
        E.run_entry(I, e, {'data': W.S(w) if isinstance(w, str) else W.deep(w)})
        rep.count('written words')
        if drawn: rep.finding('effect', repo.where(e.node), 'a word that is written out can give a random mapping class', e.node.lineno)

def check(repo, rep):
    rep.rule('no construct of the kernel or the loaders reaches files, network, environment, clock, randomness (random_word and what only it uses excepted), addresses, display or global state, and nothing imported at import time needs a display')
    rep.rule('no operation goes through a set of names, or of objects hashed by address, in a way that depends on the order; mapping_class only draws at random when it is given a length')
    Effects(repo, rep).all()
    from report import part
    part(rep, words, repo, rep)
    ctx = Context(repo)
    real = Orders
    import sweep as S
    old = S.Api
    S.Api = Orders
    try:
        for e, I, rets, sink, v, st in sweep(repo, rep):
            one_entry(repo, rep, ctx, e, I)
            for ev in I.events:
                if ev['rule'] == 'global' and ev['where'].split(':')[0].startswith('curver/') and 'decorators.py' not in ev['where']: rep.finding('global', ev['where'], ev['detail'], ev['line'])
    finally: S.Api = old
    rep.need('constructs', 5000); rep.need('entries', 300); rep.need('sets gone through', 20)
