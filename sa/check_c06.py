"""C06: remembering results never changes an answer.

A dataflow analysis of the remembering decorator decides what its key depends on and whose cache it uses, an abstract
interpretation of it decides what it hands back, and every user of it, and every place a cache is moved, is inspected."""
import ast
from dom import *
from repo import AnalysisError
from api import Api
from interp import Dead

LOSSY = {'str', 'repr', 'id', 'hash', 'len', 'type', 'sum', 'max', 'min', 'bool', 'abs', 'any', 'all'}
ITERATORS = {'map', 'zip', 'filter', 'iter', 'reversed', 'enumerate', 'islice', 'chain', 'count', 'cycle', 'product', 'combinations', 'permutations', 'takewhile', 'dropwhile', 'accumulate', 'starmap'}
AMBIENT = {'random', 'time', 'os', 'datetime', 'secrets', 'uuid', 'getpid', 'perf_counter', 'environ', 'getenv', 'input', 'open', 'id'}

def own_nodes(fn):
    """The nodes of a function without those of the functions inside it."""
    work = list(ast.iter_child_nodes(fn)) if not isinstance(fn, list) else list(fn)
    while work:
        n = work.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): work.extend(ast.iter_child_nodes(n))
def params(fn): return [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
def assigned(fn):
    """name -> the expressions assigned to it (None where it is bound otherwise)."""
    out = {}
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): out.setdefault(t.id, []).append(n.value)
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.setdefault(x.id, []).append(None)
        elif isinstance(n, ast.NamedExpr): out.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: out.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): out.setdefault(n.target.id, []).append(None)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name): out.setdefault(x.id, []).append(None)
        elif isinstance(n, ast.ExceptHandler) and n.name: out.setdefault(n.name, []).append(None)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    for x in ast.walk(i.optional_vars):
                        if isinstance(x, ast.Name): out.setdefault(x.id, []).append(None)
    return out

class Key:
    """What an expression of a remembering function is determined by, and whose object it belongs to."""
    ALL = frozenset({'op', 'names', 'values'})
    def __init__(self, repo, module, fn, given=None):
        self.repo, self.module, self.fn, self.defs = repo, module, fn, assigned(fn)
        self.given = given or {}                          # parameter -> (checker, expression) at the call
        self.depth = 0
    def resolve(self, e):
        """Follow a name to the one expression it stands for."""
        for _ in range(20):
            if isinstance(e, ast.Name) and e.id in self.defs and len(self.defs[e.id]) == 1 and self.defs[e.id][0] is not None and e.id not in params(self.fn): e = self.defs[e.id][0]
            else: break
        return e
    def role(self, e):
        """'function', 'args', 'kwargs', 'inputs', 'self' or None."""
        e = self.resolve(e)
        if isinstance(e, ast.Name):
            if e.id in self.given: return self.given[e.id][0].role(self.given[e.id][1])
            if e.id in params(self.fn) and e.id in ('function', 'func', 'f', 'fn', 'method'): return 'function'
            if params(self.fn) and e.id == params(self.fn)[0] and e.id not in ('self', 'cls'): return 'function'
            if e.id == 'self' and e.id in params(self.fn): return 'self'
            if self.fn.args.vararg and e.id == self.fn.args.vararg.arg: return 'args'
            if self.fn.args.kwarg and e.id == self.fn.args.kwarg.arg: return 'kwargs'
        if isinstance(e, ast.Call):
            f = e.func
            if (isinstance(f, ast.Attribute) and f.attr or getattr(f, 'id', None)) in ('getcallargs',): return 'inputs'
            if isinstance(f, ast.Name) and f.id == 'dict' and len(e.args) == 1: return self.role(e.args[0])
            if isinstance(f, ast.Attribute) and f.attr == 'copy': return self.role(f.value)
            if isinstance(f, ast.Attribute) and f.attr in ('pop', 'get') and self.role(f.value) == 'inputs' and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == 'self': return 'self'
        if isinstance(e, ast.Subscript):
            if self.role(e.value) == 'inputs' and isinstance(e.slice, ast.Constant) and e.slice.value == 'self': return 'self'
            if self.role(e.value) == 'args' and isinstance(e.slice, ast.Constant) and e.slice.value == 0: return 'self'
        if isinstance(e, ast.Attribute) and e.attr == 'arguments': return 'inputs'
        return None
    def info(self, e):
        """What the value of e determines (a subset of op, names, values, positional, keyword), None when not known."""
        e = self.resolve(e)
        if isinstance(e, ast.Name) and e.id in self.given: return self.given[e.id][0].info(self.given[e.id][1])
        r = self.role(e)
        if r == 'function': return {'op'}
        if r == 'args': return {'positional'}
        if r == 'kwargs': return {'knames'}
        if r == 'inputs': return {'names'}
        if r == 'self': return set()
        if isinstance(e, ast.Constant): return set()
        if isinstance(e, ast.Attribute):
            if self.role(e.value) == 'function' and e.attr in ('__name__', '__qualname__', '__code__', '__func__'): return {'op'}
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            parts = [self.info(x.value if isinstance(x, ast.Starred) else x) for x in e.elts]
            return None if None in parts else set().union(*parts)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.info(e.left), self.info(e.right)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            if self.role(e.value) == 'args' and e.slice.upper is None and e.slice.step is None and (e.slice.lower is None or isinstance(e.slice.lower, ast.Constant) and e.slice.lower.value in (0, 1)): return {'positional'}
            return set()
        if isinstance(e, ast.Subscript): return set()
        if isinstance(e, ast.JoinedStr): return set()
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            g = e.generators[0]
            if len(e.generators) > 1: return None
            over = self.resolve(g.iter)
            if isinstance(over, ast.Call) and isinstance(over.func, ast.Name) and over.func.id == 'sorted' and over.args: over = over.args[0]
            base = self.info(over)
            if base is None: return None
            if g.ifs: return set()
            names = [x.id for x in g.target.elts if isinstance(x, ast.Name)] if isinstance(g.target, ast.Tuple) else None
            bare = {x.id for x in (e.elt.elts if isinstance(e.elt, ast.Tuple) else [e.elt]) if isinstance(x, ast.Name)}
            if isinstance(g.target, ast.Name): return base if g.target.id in bare else set()
            if names and len(names) == 2:
                out = set()
                if names[0] in bare: out |= base & {'names', 'knames', 'op'}
                if names[1] in bare: out |= base & {'values', 'kvalues'}
                return out
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                r = self.role(f.value)
                if r == 'inputs' and f.attr in ('items', 'keys', 'values'): return {'items': {'names', 'values'}, 'keys': {'names'}, 'values': {'values'}}[f.attr]
                if r == 'kwargs' and f.attr in ('items', 'keys', 'values'): return {'items': {'knames', 'kvalues'}, 'keys': {'knames'}, 'values': {'kvalues'}}[f.attr]
            if isinstance(f, ast.Name):
                if f.id in ('frozenset', 'tuple', 'sorted', 'list', 'set') and e.args: return self.info(e.args[0])
                if f.id in LOSSY: return set()
                return self.inline(f.id, e, lambda c, v: c.info(v))
            return None
        return None
    def inline(self, name, call, get):
        """Look into a function of the same module that is one returned expression."""
        b = self.module.names.get(name)
        if not b or b[0] != 'func' or self.depth > 3 or call.keywords or any(isinstance(a, ast.Starred) for a in call.args): return None
        rets = [n.value for n in own_nodes(b[1]) if isinstance(n, ast.Return)]
        if len(rets) != 1 or rets[0] is None: return None
        c = Key(self.repo, self.module, b[1], {p: (self, a) for p, a in zip(params(b[1]), call.args)})
        c.depth = self.depth + 1
        return get(c, rets[0])
    def container(self, e, seen=0):
        """(owner, what the way to it is determined by) of an expression for a dictionary of remembered results, or None."""
        if seen > 12: return None
        e = self.resolve(e)
        if isinstance(e, ast.Name) and e.id in self.given:
            return self.given[e.id][0].container(self.given[e.id][1], seen + 1)
        if isinstance(e, ast.Name):
            vals = [v for v in self.defs.get(e.id, []) if v is not None]
            cs = [c for c in (self.container(v, seen + 1) for v in vals) if c]
            return cs[0] if cs else None
        if isinstance(e, ast.Attribute):
            return (self.owner(e.value), set()) if 'cache' in e.attr.lower() or 'memo' in e.attr.lower() else None
        if isinstance(e, ast.Subscript):
            c = self.container(e.value, seen + 1)
            i = self.info(e.slice)
            return c and (c[0], None if i is None or c[1] is None else c[1] | i)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get') and e.args:
            c = self.container(e.func.value, seen + 1)
            i = self.info(e.args[0])
            return c and (c[0], None if i is None or c[1] is None else c[1] | i)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('getattr',) and e.args: return self.owner(e.args[0]), set()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name): return self.inline(e.func.id, e, lambda c, v: c.container(v, seen + 1))
        return None
    def owner(self, e, seen=0):
        if isinstance(e, ast.Name) and len(self.defs.get(e.id, ())) > 1 and seen < 4:
            os = [self.owner(v, seen + 1) for v in self.defs[e.id] if v is not None and not (isinstance(v, ast.Name) and v.id == e.id)]
            for o in ('class', 'function', 'self'):
                if o in os: return o
        r = self.role(e)
        if r in ('self', 'function'): return r
        e = self.resolve(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' or isinstance(e, ast.Attribute) and e.attr == '__class__': return 'class'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('pop', 'get') and self.role(e.func.value) == 'inputs': return 'self'
        return None

def complete(i): return 'op' in i and ({'names', 'values'} <= i or {'positional', 'knames', 'kvalues'} <= i or 'positional' in i and False)

def the_key(repo, rep, module, fn):
    where = repo.where(fn)
    K_ = Key(repo, module, fn)
    sites = []
    for n in own_nodes(fn):
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice): sites.append((n.value, n.slice, n))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault') and n.args: sites.append((n.func.value, n.args[0], n))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)): sites.append((n.comparators[0], n.left, n))
    # a nested dictionary is told apart by its whole path, so only the innermost lookups count
    inner = set(id(v) for v, _, _ in sites)
    seen = 0
    for cont, key, n in sites:
        c = K_.container(cont)
        if not c: continue
        if id(n) in inner: continue
        owner, path = c
        i = K_.info(key)
        if path is None or i is None: rep.count('undecided keys'); rep.note(f'{where}: a key is not understood'); continue
        names = [x for v in K_.defs.values() for x in v if x is n or isinstance(x, ast.Call) and x is n]
        if names and not complete(path | i): continue     # an outer table kept in a variable
        seen += 1
        rep.count('cache accesses')
        if owner == 'class': rep.finding('cache', where, 'results are remembered on the class, not on the object', n.lineno)
        elif owner == 'function' and 'positional' not in i | path: rep.finding('cache', where, 'results are remembered on the function, for all objects alike', n.lineno)
        miss = i | path
        if not complete(miss):
            what = 'the operation' if 'op' not in miss else 'the names of the arguments' if {'values'} <= miss and 'names' not in miss else 'the arguments given by keyword' if 'positional' in miss else 'the values of the arguments' if 'names' in miss else 'the arguments'
            rep.finding('key', where, f'{what} does not enter the key of a remembered result' if what == 'the operation' else f'{what} do not enter the key of a remembered result', n.lineno)
    for n in own_nodes(fn):
        # an argument that is dropped before the key is formed
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem', 'clear') and K_.role(n.func.value) == 'inputs':
            if not (n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 'self'): rep.finding('key', where, 'an argument is left out of the key of a remembered result', n.lineno)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and K_.role(t.value) == 'inputs' and not (isinstance(t.slice, ast.Constant) and t.slice.value == 'self'): rep.finding('key', where, 'an argument is left out of the key of a remembered result', n.lineno)
    return seen

def outcomes(repo, rep, module, fn):
    """What the remembering decorator hands back, starting from no cache and from the caches it leaves behind."""
    where = repo.where(fn)
    result = Obj('Curve', ('F',), 'fresh', ('result',))
    RAISES = ('ValueError', 'AssertionError', 'KeyError', 'TypeError')
    bad, calls = None, []
    for outcome in RAISES:                                # what the function raises, in every call of it
        I = Api(repo)
        state = State()
        oid = I.intern(('c06', 'obj'), 'o')
        state.heap[oid] = Rec('inst', org='shared', cls='Curve', fields={})
        recv = Ref(oid)
        def ext(I, name, args, kw, st, node):
            base = name.split('.')[-1]
            if base == 'getcallargs': return I.new(st, node, 'dict', items=[(k('self'), one(recv)), (k('edge'), INT), (k('double'), BOOL)], sub='ca')
            if name == 'the function':
                calls.append(node)
                if outcome: I.raise_(st, outcome, node)
                return one(result)
            if base == 'hasattr': return BOOL
            return None
        I.hooks['ext'] = ext
        states = [state]
        for round_ in range(3):
            st = states[0].copy()
            for o in states[1:]: st = I.join_states(st, o.copy(), ('c06', round_), None) if hasattr(I, 'join_states') else st
            I.sinks.append([])
            I.last_returns = []
            I.epoch = getattr(I, 'epoch', 0) + 1
            args = [one(Ext('the function')), one(recv), INT]
            try: I.run_function(Fn(fn, None, None, None), args, {'double': BOOL}, st, fn, top=True)
            except Dead: pass
            rets, sink = list(I.last_returns), I.sinks.pop()
            rep.count('returns of the decorator', len(rets))
            for s, v, _ in rets:
                for a in v:
                    if isinstance(a, Exc) or isinstance(a, Obj) and a.cls in RAISES: bad = a
            if bad: break
            states = [s for s, _, _ in rets] + [x[0] for x in sink]
            if not states: break
        if bad: break
    if bad: rep.finding('exception', where, 'an exception that was remembered is handed back as a result rather than raised again')
    if not calls: rep.finding('cache', where, 'the decorated function is never called')
    return bool(calls)

def remembered(repo):
    """(function, decorator name) for every function whose results are remembered, nested ones included."""
    out = []
    for m in repo.modules.values():
        if not m.dotted.startswith('curver'): continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                for d, _ in repo.decorators(n):
                    if d in ('memoize', 'lru_cache', 'cache', 'cached_property'): out.append((m, n, d))
    return out

def mutable_classes(repo):
    """Classes whose objects change after they are made: (class, attribute) assigned in a method that is not a constructor."""
    out = {}
    for c in repo.classes.values():
        if not c.module.dotted.startswith('curver.kernel'): continue
        for name, f in c.methods.items():
            if name in ('__init__', '__new__', '__setstate__'): continue
            if not f.args.args: continue
            me = f.args.args[0].arg
            for n in own_nodes(f):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in ts:
                    for x in ast.walk(t):
                        y = x
                        while isinstance(y, ast.Subscript): y = y.value
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me and y.attr not in ('_cache', '_inverse') and isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store): out.setdefault(c.name, (y.attr, f))
    return out

def the_users(repo, rep):
    mut = mutable_classes(repo)
    table = {}
    for m, fn, d in remembered(repo):
        where = repo.where(fn)
        rep.count('remembered functions')
        cls = repo.owner.get(fn, (None, None))[1]
        nested = fn not in (b[1] for b in m.names.values() if b[0] == 'func') and not (cls and repo.classes[cls].methods.get(fn.name) is fn)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn)): rep.finding('consumed', where, 'the result is a generator, which can be consumed only once'); continue
        defs = assigned(fn)
        for n in own_nodes(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                vals = [n.value]
                if isinstance(n.value, ast.Name): vals = [v for v in defs.get(n.value.id, []) if v is not None]
                for v in vals:
                    for x in (v.body, v.orelse) if isinstance(v, ast.IfExp) else (v,):
                        if isinstance(x, ast.GeneratorExp) or isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ITERATORS and not (isinstance(x.func, ast.Attribute) and not isinstance(x.func.value, ast.Name)): rep.finding('consumed', where, 'the result is an iterator, which can be consumed only once', n.lineno)
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and cls:
                            f = repo.find_method(cls, x.func.attr)
                            if f and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in own_nodes(f[1])): rep.finding('consumed', where, 'the result is a generator, which can be consumed only once', n.lineno)
        if cls and not nested:
            if cls in mut and fn.args.args and fn.args.args[0].arg == 'self':
                rep.finding('state', where, f'the result depends on the object, whose {mut[cls][0]} changes later')
            if d in ('lru_cache', 'cache') and fn.args.args and fn.args.args[0].arg == 'self': rep.finding('cache', where, 'results are remembered for all equal objects together, not on the object')
            for n in own_nodes(fn):
                if isinstance(n, ast.Attribute) and n.attr == fn.name and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                    up = [b for b in repo.mro(cls)[1:] if b in repo.classes and fn.name in repo.classes[b].methods]
                    if up and any(x in ('memoize',) for x, _ in repo.decorators(repo.classes[up[0]].methods[fn.name])) and d == 'memoize': rep.finding('key', where, 'the result shares its key with that of the operation it overrides', n.lineno)
        for n in own_nodes(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in AMBIENT and (n.id not in m.names or m.names[n.id][0] in ('mod', 'from')) and n.id not in params(fn) and n.id not in defs: rep.finding('state', where, f'the result depends on {n.id}', n.lineno)
            if isinstance(n, ast.Global): rep.finding('state', where, 'the result depends on a global variable', n.lineno)
        table[where] = d

# ---------------------------------------------------------------- moving caches
def sources(fn, e, depth=0):
    """The expressions a name stands for, None when it is bound in another way."""
    if isinstance(e, ast.Name):
        vs = assigned(fn).get(e.id)
        if e.id in params(fn) or not vs: return [e]
        if None in vs: return None
        out = []
        for v in vs:
            s = sources(fn, v, depth + 1) if depth < 6 else None
            if s is None: return None
            out.extend(s)
        return out
    return [e]
def data_of(repo, fn, cls, e):
    """('data', argument dumps) of an object built from known data, ('result', text) of the result of an operation, or None."""
    ss = sources(fn, e)
    if ss is None: return ('result', ast.dump(e))
    if len(ss) != 1: return None
    e = ss[0]
    def arg(a):
        s = sources(fn, a)
        a = s[0] if s and len(s) == 1 else a
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('list', 'tuple') and len(a.args) == 1: return arg(a.args[0])
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'copy' and not a.args: return arg(a.func.value)
        if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.lower is None and a.slice.upper is None and a.slice.step is None: return arg(a.value)
        if isinstance(a, ast.ListComp) and len(a.generators) == 1 and not a.generators[0].ifs and isinstance(a.elt, ast.Name) and isinstance(a.generators[0].target, ast.Name) and a.elt.id == a.generators[0].target.id: return arg(a.generators[0].iter)
        return ast.dump(a).replace(', ctx=Load()', '')
    def ident(text): return ast.dump(ast.parse(text, mode='eval').body).replace(', ctx=Load()', '')
    if isinstance(e, ast.Name) and (e.id in params(fn)):
        c = cls if e.id == 'self' else None
        if e.id in ('lamination', 'other', 'curve', 'arc', 'multicurve') and c is None: c = 'Lamination'
        if c is None: return None
        if c in repo.classes and repo.find_method(c, '__init__'):
            ps = params(repo.find_method(c, '__init__')[1])[1:]
            return ('data', tuple(ident(f'{e.id}.{p}') for p in ps))
        return None
    if isinstance(e, ast.Call):
        f = e.func
        made = isinstance(f, ast.Attribute) and (f.attr == '__class__' or f.attr in repo.classes) or isinstance(f, ast.Name) and f.id in repo.classes or isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'type'
        if made and not e.keywords: return ('data', tuple(arg(a) for a in e.args))
        if isinstance(f, ast.Attribute) and f.attr in ('triangulation', 'source_triangulation', 'target_triangulation') and len(e.args) >= 1: return ('data', (arg(f), arg(e.args[0])))
        if isinstance(f, ast.Attribute): return ('result', ast.dump(e))
    return None

def the_transfers(repo, rep):
    for fn, (m, cls) in list(repo.owner.items()):
        if not isinstance(fn, ast.FunctionDef) or not m.dotted.startswith('curver.kernel') or m.dotted.endswith('.decorators'): continue
        for n in own_nodes(fn):
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == '_cache': pairs.append((t.value, n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == '_cache': pairs.append((n.args[0], n.args[2]))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ('_cache', '__dict__') and n.args: pairs.append((n.func.value.value, n.args[0]))
            for to, value in pairs:
                # where the remembered results come from
                src = [x.value for v in (sources(fn, value) or [value]) for x in ast.walk(v) if isinstance(x, ast.Attribute) and x.attr in ('_cache', '__dict__')]
                src += [x.args[0] for v in (sources(fn, value) or [value]) for x in ast.walk(v) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'vars') and x.args]
                if not src: continue
                rep.count('caches moved')
                where = repo.where(fn)
                for s in src: moved(repo, rep, where, fn, cls, to, s, n)
        copies(repo, rep, fn, m)

def moved(repo, rep, where, fn, cls, to, s, n, depth=0):
    if ast.dump(to) == ast.dump(s): return
    a, b = data_of(repo, fn, cls, to), data_of(repo, fn, cls, s)
    ps = params(fn)
    if isinstance(to, ast.Name) and isinstance(s, ast.Name) and to.id in ps and s.id in ps and depth < 3:
        # a helper: look at its calls
        for f2, (m2, c2) in list(repo.owner.items()):
            if not isinstance(f2, ast.FunctionDef) or f2 is fn: continue
            for c in own_nodes(f2):
                if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == fn.name or isinstance(c.func, ast.Attribute) and c.func.attr == fn.name):
                    args = list(c.args)
                    if isinstance(c.func, ast.Attribute) and ps and ps[0] == 'self': args = [c.func.value] + args
                    bind = dict(zip(ps, args)); bind.update({w.arg: w.value for w in c.keywords})
                    if to.id in bind and s.id in bind: moved(repo, rep, repo.where(f2), f2, c2, bind[to.id], bind[s.id], c, depth + 1)
        return
    if a is not None and b is not None and a[0] == b[0] == 'data':
        rep.count('transfers decided')
        if a[1] != b[1]: rep.finding('transfer', where, 'remembered results move to an object with other data', n.lineno)
    elif a is not None and b is not None: rep.finding('transfer', where, 'remembered results move between objects that are not built from the same data', n.lineno)
    else: rep.count('undecided transfers'); rep.note(f'{where}: a moved cache is not understood')

def copies(repo, rep, fn, m):
    """Copies of whole objects take the remembered results along: their data must not be replaced afterwards."""
    defs = assigned(fn)
    for name, vals in defs.items():
        for v in vals:
            if not (isinstance(v, ast.Call) and (isinstance(v.func, ast.Attribute) and v.func.attr in ('copy', 'deepcopy') and isinstance(v.func.value, ast.Name) and v.func.value.id == 'copy' or isinstance(v.func, ast.Name) and v.func.id in ('copy', 'deepcopy'))): continue
            stores = [t for n in own_nodes(fn) if isinstance(n, (ast.Assign, ast.AugAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])]
            tgt = []
            for t in stores:
                y = t
                while isinstance(y, ast.Subscript): y = y.value
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == name: tgt.append(y.attr)
            if tgt and '_cache' not in tgt: rep.finding('transfer', repo.where(fn), 'a copy keeps the remembered results while its data is replaced', v.lineno)

def check(repo, rep):
    rep.rule('Rule (key): what the key of a remembered result is determined by, followed through definitions and helpers, includes the operation and the name and value of every argument. '
             'Rule (cache): the cache belongs to the object. Rule (exception): no exception value reaches a return of the decorator, from any cache it leaves behind. '
             'Rule (consumed, state): no remembered function yields or returns an iterator, or depends on the surroundings or on an object that changes. '
             'Rule (transfer): a cache moves only between objects whose constructor arguments are the same expressions. Rule (mut): no remembered result is modified by anyone.')
    deco = [(m, b[1]) for m in repo.modules.values() for n, b in m.names.items() if b[0] == 'func' and n == 'memoize']
    if not deco: raise AnalysisError('anchor vanished: the remembering decorator')
    for m, fn in deco:
        inner = [x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn]
        n = sum(the_key(repo, rep, m, f) for f in [fn] + inner)
        if not n: rep.note('no access to a cache is understood')
        if not inner:
            try: outcomes(repo, rep, m, fn)
            except (AnalysisError, RecursionError) as e: rep.note(f'outcomes of the decorator: {e}')
        for name, b in m.names.items():
            if b[0] == 'func' and b[1] is not fn:
                for x in ast.walk(b[1]):
                    if isinstance(x, ast.FunctionDef) and any(isinstance(y, ast.Attribute) and y.attr == '_cache' for y in own_nodes(x)): the_key(repo, rep, m, x)
    the_users(repo, rep)
    the_transfers(repo, rep)
    results(repo, rep)
    rep.need('remembered functions', 5)
    rep.need('cache accesses', 1)

def results(repo, rep):
    """Nobody modifies what a remembering operation returned."""
    from sweep import sweep
    for e, I, rets, sink, v, st in sweep(repo, rep):
        for ev in I.events:
            if ev['rule'] == 'mut' and 'remembered' in ev['detail']: rep.finding('mut', ev['where'], ev['detail'], ev['line'])
