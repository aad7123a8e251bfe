"""C07: equality is total and agrees with hashing.

An abstract interpretation of every equality against every kind of foreign operand decides that it answers False; an
access-path analysis of each equality and each hash decides that the hash is a function of what equality compares; an
abstract interpretation of the constructors decides that a list and a tuple are stored alike."""
import ast
from dom import *
import entries as E
import api
from api import Api, LAMS, ENC, FLIPMOVES, OTHERMOVES, objs, FIELDS
from check_c06 import own_nodes, params

KERNEL = 'curver.kernel'
# ------------------------------------------------------------------ terms
SELF, OTHER = ('self',), ('other',)
COMMUTE = {'frozenset', 'set', 'sum', 'sorted', 'any', 'all', 'max', 'min', 'len', 'Counter', 'dict'}
class Terms:
    """The value of an expression as a term over self (and other), loop variables being numbered from outside in."""
    def __init__(self): self.n = 0
    def of(self, e, env):
        T = self.of
        if e is None: return ('c', None)
        if isinstance(e, ast.Name): return env.get(e.id, ('g', e.id))
        if isinstance(e, ast.Constant): return ('c', e.value)
        if isinstance(e, ast.Attribute): return ('attr', T(e.value, env), e.attr)
        if isinstance(e, (ast.Tuple, ast.List)): return ('tuple',) + tuple(T(x, env) for x in e.elts)
        if isinstance(e, ast.Set): return ('f', 'set', ('tuple',) + tuple(T(x, env) for x in e.elts))
        if isinstance(e, ast.Starred): return ('star', T(e.value, env))
        if isinstance(e, ast.Call):
            args = tuple(T(a, env) for a in e.args) + tuple(('kw', k_.arg, T(k_.value, env)) for k_ in e.keywords)
            if isinstance(e.func, ast.Attribute):
                recv = T(e.func.value, env)
                if recv[0] == 'g' and recv[1] in ('np', 'numpy', 'operator', 'itertools', 'functools'): return ('f', e.func.attr) + args
                return ('m', recv, e.func.attr) + args
            if isinstance(e.func, ast.Name):
                t = env.get(e.func.id)
                if t is None: return ('f', e.func.id) + args
                if t[0] == 'attr': return ('m', t[1], t[2]) + args
                return ('m', t, '__call__') + args
            return ('m', T(e.func, env), '__call__') + args
        if isinstance(e, ast.Subscript):
            v = T(e.value, env)
            return ('m', v, '__getitem__', T(e.slice, env))
        if isinstance(e, ast.Slice): return ('slice', T(e.lower, env), T(e.upper, env), T(e.step, env))
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            env, doms = dict(env), []
            for g in e.generators:
                d = T(g.iter, env)
                depth = len(doms) + env.get('#depth', ('c', 0))[1]
                env.update(self.target(g.target, depth)); env['#depth'] = ('c', depth + 1)
                doms.append((d,) + tuple(T(i, env) for i in g.ifs))
            elt = ('tuple', T(e.key, env), T(e.value, env)) if isinstance(e, ast.DictComp) else T(e.elt, env)
            t = ('each', elt) + tuple(doms)
            return ('f', 'set', t) if isinstance(e, ast.SetComp) else ('f', 'dict', t) if isinstance(e, ast.DictComp) else t
        if isinstance(e, ast.BinOp): return ('op', type(e.op).__name__, T(e.left, env), T(e.right, env))
        if isinstance(e, ast.UnaryOp): return ('op', type(e.op).__name__, T(e.operand, env))
        if isinstance(e, ast.BoolOp): return ('op', type(e.op).__name__) + tuple(T(v, env) for v in e.values)
        if isinstance(e, ast.Compare) and len(e.ops) == 1: return ('cmp', type(e.ops[0]).__name__, T(e.left, env), T(e.comparators[0], env))
        if isinstance(e, ast.Compare):
            parts, left = [], e.left
            for o, r in zip(e.ops, e.comparators): parts.append(('cmp', type(o).__name__, T(left, env), T(r, env))); left = r
            return ('op', 'And') + tuple(parts)
        if isinstance(e, ast.IfExp): return ('if', T(e.test, env), T(e.body, env), T(e.orelse, env))
        if isinstance(e, ast.NamedExpr):
            env[e.target.id] = T(e.value, env); return env[e.target.id]
        if isinstance(e, ast.JoinedStr): return ('f', 'str') + tuple(T(v.value, env) for v in e.values if isinstance(v, ast.FormattedValue))
        self.n += 1
        return ('?', self.n)
    def target(self, t, depth, path=()):
        if isinstance(t, ast.Name): return {t.id: ('b', depth) + path}
        out = {}
        if isinstance(t, (ast.Tuple, ast.List)):
            for j, x in enumerate(t.elts): out.update(self.target(x, depth, path + (j,)))
        return out
def swap(t):
    """self and other exchanged."""
    if t == SELF: return OTHER
    if t == OTHER: return SELF
    return tuple(swap(x) if isinstance(x, tuple) else x for x in t)
def literal(d):
    """The members of a domain that is written out."""
    if d[0] == 'tuple' and not any(x[0] == 'star' for x in d[1:]): return d[1:]
    if d[:2] == ('f', 'zip') and len(d) > 2:
        parts = [literal(x) for x in d[2:]]
        if None not in parts and len({len(x) for x in parts}) == 1: return tuple(('tuple',) + x for x in zip(*parts))
    return None
def put(t, depth, x):
    """t with the variable bound at this depth replaced by x."""
    if not isinstance(t, tuple): return t
    if len(t) > 1 and t[0] == 'b' and t[1] == depth:
        for j in t[2:]: x = x[j + 1] if x[0] == 'tuple' and len(x) > j + 1 else ('m', x, '__getitem__', ('c', j))
        return x
    t = tuple(put(y, depth, x) for y in t)
    if t[:2] == ('f', 'getattr') and len(t) == 4 and t[3][0] == 'c' and isinstance(t[3][1], str): return ('attr', t[2], t[3][1])
    if len(t) == 4 and t[0] == 'm' and t[2] == '__getitem__' and t[1][0] == 'tuple' and t[3][0] == 'c' and isinstance(t[3][1], int) and 0 <= t[3][1] < len(t[1]) - 1: return t[1][1 + t[3][1]]
    return t
def mentions(t, what):
    return t == what or isinstance(t, tuple) and any(mentions(x, what) for x in t if isinstance(x, tuple))
def show(t):
    if t == SELF: return 'self'
    if t == OTHER: return 'other'
    if t[0] in ('g',): return t[1]
    if t[0] == 'b': return 'x%d' % t[1] + ''.join(f'[{j}]' for j in t[2:])
    if t[0] == 'c': return repr(t[1])
    if t[0] == 'attr': return show(t[1]) + '.' + t[2]
    if t[0] == 'm': return f"{show(t[1])}.{t[2]}({', '.join(show(x) for x in t[3:])})"
    if t[0] == 'f': return f"{t[1]}({', '.join(show(x) for x in t[2:])})"
    if t[0] == 'each': return f'({show(t[1])} for {", ".join(show(d[0]) for d in t[2:])})'
    if t[0] == 'tuple': return '(' + ', '.join(show(x) for x in t[1:]) + ')'
    return t[0]

class Unclear(Exception): pass
EVERYTHING = 'everything'
def meet(a, b):
    if a == EVERYTHING: return b
    if b == EVERYTHING: return a
    return a & b
def join(a, b): return EVERYTHING if EVERYTHING in (a, b) else a | b

class Eq:
    """The terms over self that an equality compares on every path on which it can answer True."""
    def __init__(self, repo, cls, dcls, fn, depth=0):
        self.repo, self.cls, self.dcls, self.fn, self.depth = repo, cls, dcls, fn, depth
        self.T, self.unclear, self.cross, self.paths, self.base = Terms(), False, [], [], 0
        ps = params(fn)
        self.other = ps[1]
        self.run(fn.body, {ps[0]: SELF, ps[1]: OTHER}, frozenset())
        self.obs = EVERYTHING
        mine = [f for f, x in self.paths if not x] or [f for f, _ in self.paths]
        for f in mine: self.obs = meet(self.obs, f)
        self.foreign = any(x for _, x in self.paths)      # can answer True for an object of a base class
    def facts(self, t, truth):
        """What is compared when t has this truth value; None when it cannot."""
        if t[0] == 'c':
            return frozenset() if bool(t[1]) == truth else None
        if t[0] == 'g' and t[1] in ('NotImplemented',): return None if truth else frozenset()
        if t[0] == 'f' and t[1] == 'bool' and len(t) == 3: return self.facts(t[2], truth)
        if t[0] == 'op' and t[1] == 'Not': return self.facts(t[2], not truth)
        if t[0] == 'op' and t[1] in ('And', 'Or'):
            parts = [self.facts(x, truth) for x in t[2:]]
            if (t[1] == 'And') == truth:
                if None in parts: return None
                out = frozenset()
                for p in parts: out = join(out, p)
                return out
            parts = [p for p in parts if p is not None]
            if not parts: return None
            out = EVERYTHING
            for p in parts: out = meet(out, p)
            return out
        if t[0] == 'op' and t[1] in ('BitAnd',) and truth:
            parts = [self.facts(x, True) for x in t[2:]]
            return None if None in parts else join(*parts)
        if t[0] == 'if':
            out = []
            for side, tt in ((True, t[2]), (False, t[3])):
                a, b = self.facts(t[1], side), self.facts(tt, truth)
                if a is not None and b is not None: out.append(join(a, b))
            if not out: return None
            r = EVERYTHING
            for p in out: r = meet(r, p)
            return r
        if t[0] == 'cmp' and t[1] in ('Eq', 'NotEq') and (t[1] == 'Eq') == truth: return self.same(t[2], t[3])
        if t[0] == 'cmp' and t[1] in ('Is', 'IsNot') and (t[1] == 'Is') == truth and {t[2], t[3]} == {SELF, OTHER}: return EVERYTHING
        if t[0] == 'cmp' and t[1] in ('Is', 'IsNot') and (t[1] == 'Is') == truth: return self.same(t[2], t[3])
        if t[0] == 'f' and t[1] in ('array_equal', 'eq', 'array_equiv') and truth: return self.same(t[2], t[3])
        if t[0] == 'f' and t[1] in ('ne',) and not truth: return self.same(t[2], t[3])
        if t[0] == 'f' and t[1] in ('all', 'any') and len(t) == 3 and (t[1] == 'all') == truth:
            g = t[2]
            if g[0] == 'each':
                members = literal(g[2][0]) if len(g) == 3 and len(g[2]) == 1 else None
                self.base += len(g) - 2
                if members:
                    parts = [self.facts(put(g[1], self.base - 1, x), truth) for x in members]
                    self.base -= 1
                    if None in parts: return None
                    out = frozenset()
                    for p in parts: out = join(out, p)
                    return out
                f = self.facts(g[1], truth)
                self.base -= len(g) - 2
                if f is None: return frozenset()      # an empty domain
                if any(len(d) > 1 for d in g[2:]): return frozenset()
                return f if f == EVERYTHING else self.quantified(f, g[2:])
            return self.facts(g, truth)
        if t[0] == 'm' and t[2] == 'all' and len(t) == 3 and truth: return self.facts(t[1], True)
        if t[0] == 'm' and t[1][:2] == ('f', 'super') and t[2] == '__eq__': return self.parent(truth)
        if t[0] == 'm' and t[2] == '__eq__' and t[1][0] == 'g' and len(t) == 5: return self.parent(truth)
        if t[0] == 'm' and t[1] in (SELF, OTHER) and truth:
            r = self.repo.find_method(self.cls, t[2])
            if r and self.depth < 3 and len(params(r[1])) == 2 and set(t[3:4] + (t[1],)) == {SELF, OTHER}:
                sub = Eq(self.repo, self.cls, r[0], r[1], self.depth + 1)
                self.unclear |= sub.unclear
                return sub.obs if sub.paths else None
            self.unclear = True
            return frozenset()
        if t[0] in ('m', 'f') and t[1] != 'isinstance' and mentions(t, OTHER) and mentions(t, SELF): self.unclear = True
        if t[0] == '?': self.unclear = True
        return frozenset()
    def quantified(self, f, doms):
        """Observations of the members of domains that both sides share: every one of them for the whole."""
        out = set()
        ds = [d[0] for d in doms]
        if ds[0][:2] == ('f', 'zip') and len(ds) == 1 and len(ds[0]) == 4 and swap(ds[0][2]) == ds[0][3]:
            a = ds[0][2] if mentions(ds[0][2], SELF) else ds[0][3]
            return frozenset({a})
        for x in f: out.add(('each', x) + tuple((d,) for d in ds))
        return frozenset(out)
    def same(self, a, b):
        if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
            out = frozenset()
            for x, y in zip(a[1:], b[1:]): out = join(out, self.same(x, y))
            return out
        if {a, b} == {SELF, OTHER}: self.unclear = True; return frozenset()
        if a == OTHER or b == OTHER:
            self.cross.append(b if a == OTHER else a)
            return frozenset({b if a == OTHER else a})
        if swap(a) == b: return frozenset({a if mentions(a, SELF) else b})
        if a[0] == 'b' and b[0] == 'b' and a[:2] == b[:2]: return frozenset({a})       # members of a zip
        if mentions(a, OTHER) or mentions(b, OTHER): self.unclear = True
        return frozenset()
    def parent(self, truth):
        if not truth: return frozenset()
        mro = self.repo.mro(self.dcls)
        for c in mro[1:]:
            ci = self.repo.classes.get(c)
            if ci and '__eq__' in ci.methods:
                sub = Eq(self.repo, self.cls, c, ci.methods['__eq__'], self.depth)
                self.unclear |= sub.unclear
                return sub.obs if sub.paths else None
        return frozenset()
    def run(self, body, env, known, own=True):
        """Follow every path; returns the (environment, facts) pairs that fall off the end."""
        live = [(env, known, own)]
        for s in body:
            nxt = []
            for env, known, own in live:
                if isinstance(s, ast.Return):
                    t = self.T.of(s.value, env)
                    f = self.facts(t, True)
                    if f is not None: self.paths.append((join(known, f), not own))
                elif isinstance(s, ast.Raise): pass
                elif isinstance(s, ast.If):
                    t = self.T.of(s.test, env)
                    for side, blk in ((True, s.body), (False, s.orelse)):
                        f = self.facts(t, side)
                        o = own and not self.rules_out(t, side)
                        if f is None: continue
                        for e2, k2, o2 in self.run(blk, dict(env), join(known, join(f, self.implied(t, side))), o): nxt.append((e2, k2, o2))
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    env = dict(env); env[s.targets[0].id] = self.T.of(s.value, env); nxt.append((env, known, own))
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                    new = {x.id: self.T.of(v, env) for x, v in zip(s.targets[0].elts, s.value.elts) if isinstance(x, ast.Name)}
                    env = dict(env); env.update(new); nxt.append((env, known, own))
                elif isinstance(s, (ast.Expr, ast.Pass, ast.Assert)): nxt.append((env, known, own))
                elif isinstance(s, ast.For) and not s.orelse:
                    d = self.T.of(s.iter, env)
                    members = literal(d)
                    if members:
                        states = [(env, known, own)]
                        for x in members:
                            bound = {n: put(v, 0, x) for n, v in self.T.target(s.target, 0).items()}
                            states = [r for e0, k0, o0 in states for r in self.run(s.body, {**e0, **bound}, k0, o0)]
                        nxt.extend(states)
                        continue
                    inner = dict(env); inner.update(self.T.target(s.target, 0)); inner['#depth'] = ('c', 1)
                    before = len(self.paths)
                    falls = self.run(s.body, inner, frozenset(), own)
                    if len(self.paths) > before: self.unclear = True
                    f = EVERYTHING
                    for _, k2, _ in falls: f = meet(f, k2)
                    f = frozenset() if f == EVERYTHING else f
                    nxt.append((env, join(known, self.quantified(f, ((d,),)) if f else f), own))
                else:
                    self.unclear = True
                    nxt.append((env, known, own))
            live = nxt
        return live
    def implied(self, t, side):
        """eq in [NotImplemented, False] is false: eq held."""
        if t[0] == 'cmp' and t[1] in ('In', 'NotIn') and (t[1] == 'NotIn') == side and t[3][0] == 'tuple' and all(x in (('c', False), ('g', 'NotImplemented')) for x in t[3][1:]):
            return self.facts(t[2], True) or frozenset()
        return frozenset()
    def rules_out(self, t, side):
        """This branch is for others that are not of this class."""
        neg = False
        while t[0] == 'op' and t[1] == 'Not': t, neg = t[2], not neg
        if t[0] == 'f' and t[1] == 'isinstance' and len(t) == 4 and t[2] == OTHER:
            c = t[3]
            name = c[1] if c[0] == 'g' else c[2] if c[0] == 'attr' else None
            return name == self.dcls and (side != neg) is False
        return False

class Hash:
    """Whether a hash is a function of the observations."""
    def __init__(self, repo, cls, eq, obs=None):
        self.repo, self.cls, self.eq = repo, cls, eq
        self.obs = eq.obs if obs is None else obs
        self.bad, self.unclear, self.T, self.stack, self.seen = [], False, Terms(), [], {}
        if self.obs != EVERYTHING: self.obs = self.spelt_out(self.obs)
    def spelt_out(self, obs):
        """With everything that follows from the observations: the parts of a compared tuple, and of one a method returns."""
        out, work = set(), list(obs)
        while work:
            t = work.pop()
            if t in out or len(out) > 200: continue
            out.add(t)
            if t[0] == 'tuple': work += t[1:]
            elif t[0] == 'f' and t[1] in ('tuple', 'list') and len(t) == 3: work.append(self.iterable(t[2]) if t[2] == SELF else t[2])
            elif t[0] == 'op' and t[1] == 'Add': pass
            elif t[0] == 'm' and t[1] == SELF:
                r = self.repo.find_method(self.cls, t[2])
                v = r and self.result(r[1], t[3:])
                if v: work.append(v)
            elif t[0] == 'attr' and t[1] == SELF:
                r = self.repo.find_method(self.cls, t[2])
                v = r and self.result(r[1], ())
                if v: work.append(v)
        return frozenset(out)
    def complain(self, what):
        if what not in self.bad: self.bad.append(what)
    def known(self, t):
        if self.obs == EVERYTHING or t in self.obs: return True
        # the same observation of each member of a shared domain
        return False
    def each_known(self, elt, doms):
        """x for ... in D where each x is compared: the elements, or the elements of those, of something compared."""
        if self.obs == EVERYTHING: return True
        for n in range(len(doms), 0, -1):
            head = tuple((d[0],) for d in doms[:n])
            if any(len(d) > 1 for d in doms[:n]): continue
            if n == len(doms):
                if ('each', elt) + head in self.obs: return True
            elif ('each', doms[n][0]) + head in self.obs: return all([self.ok(d[0]) for d in doms[:n]] + [self.ok(i) for i in doms[n][1:]] + [self.ok(d[0]) for d in doms[n + 1:]] + [self.ok(elt)])
        return False
    def kind(self, t):
        """The kind of container that a field of self is."""
        if t[0] == 'attr' and t[1] == SELF:
            for c in self.repo.mro(self.cls):
                f = FIELDS.get(c, {}).get(t[2])
                if f: return self.field_kind(f)
        if t[0] == 'f' and t[1] in ('set', 'frozenset', 'dict'): return t[1]
        if t[0] == 'm' and t[2] in ('items', 'keys', 'values') and len(t) == 3: return 'dict'
        return None
    def field_kind(self, f):
        I = Api(self.repo); st = State()
        try: v = f(I, st, next(iter(E.receiver(self.cls)[0])), ast.Pass(lineno=0, col_offset=0))
        except Exception: return None
        ks = {st.heap[x.oid].kind for x in v if isinstance(x, Ref)}
        return ks.pop() if len(ks) == 1 else None
    def iterable(self, t):
        """self, used as an iterable, is what its __iter__ iterates over."""
        if t == SELF:
            r = self.repo.find_method(self.cls, '__iter__')
            v = r and self.result(r[1], ())
            if v and v[:2] == ('f', 'iter') and len(v) == 3: return v[2]
            if v: return v
        return t
    def result(self, fn, args):
        """The term a method of one returned expression stands for."""
        rets = [n for n in own_nodes(fn) if isinstance(n, ast.Return)]
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) or isinstance(s, (ast.Pass, ast.Assert)))]
        if len(rets) != 1 or not body or body[-1] is not rets[0]: return None
        ps = params(fn)
        if len(args) > len(ps) - 1 or any(a[0] in ('kw', 'star') for a in args): return None
        env = {ps[0]: SELF}
        env.update(zip(ps[1:], args))
        for s in body[:-1]:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): env[s.targets[0].id] = self.T.of(s.value, env)
            else: return None
        for p in ps[1 + len(args):]: env[p] = ('?', p)
        return self.T.of(rets[0].value, env)
    def ordered(self, t, consumer):
        d = self.iterable(t)
        if consumer in COMMUTE: return
        if self.kind(d) in ('dict', 'set', 'frozenset') and self.obs != EVERYTHING: self.complain(f'the order of {show(d)}, which equality ignores')
    def ok(self, t, consumer=None):
        """Is t determined by the observations? Complains about each part that is not."""
        if self.known(t): return True
        if t in self.stack or len(self.stack) > 60: return True
        self.stack.append(t)
        try: return self._ok(t, consumer)
        finally: self.stack.pop()
    def _ok(self, t, consumer):
        h = t[0]
        if h in ('c', 'b', 'g'): return True
        if h == '?': self.unclear = True; return True
        if h == 'kw': return self.ok(t[2], consumer)
        if h == 'star': self.ordered(t[1], consumer); return self.ok(self.iterable(t[1]), consumer)
        if h == 'self':
            d = self.iterable(t)
            if d != SELF: return self.ok(d, consumer)
            self.unclear = True; return True
        if h == 'attr':
            if t[1] == SELF: return self.field(t[2])
            if t[1] == ('attr', SELF, '__class__'): return self.field('__class__')
            if not self.ok(t[1]): return False
            return self.part(t)
        if h == 'each':
            if self.each_known(t[1], t[2:]): return True
            good = True
            for d in t[2:]:
                self.ordered(d[0], consumer)
                good &= self.ok(self.iterable(d[0]), consumer)
                for i in d[1:]: good &= self.ok(i)
            return good & self.ok(t[1])
        if h == 'f':
            if t[1] in ('id',): self.complain(f'{show(t)}, the identity of an object'); return False
            if t[1] == 'type' and len(t) == 3 and t[2] == SELF: return self.field('__class__')
            if t[1] in ('super',): self.unclear = True; return True
            if t[1] in ('hash', 'repr', 'str') and len(t) == 3 and t[2] == SELF: return self.method('__%s__' % t[1] if t[1] != 'repr' else '__repr__', ())
            if t[1] == 'len' and len(t) == 3 and t[2] == SELF: return self.method('__len__', ())
            inner = t[1] if t[1] in COMMUTE else consumer if t[1] in ('iter', 'list', 'tuple', 'map', 'filter') and consumer else None
            good = True
            for x in t[2:]:
                if t[1] in ('tuple', 'list', 'enumerate', 'zip', 'join', 'map', 'chain', 'str', 'repr') and x and x[0] in ('self', 'attr', 'm', 'f'): self.ordered(x, inner)
                good &= self.ok(self.iterable(x), inner) if x == SELF and t[1] in ('tuple', 'list', 'sorted', 'frozenset', 'set', 'map', 'zip', 'enumerate', 'sum', 'max', 'min') else self.ok(x, inner)
            return good
        if h == 'm':
            if t[1] == SELF: return self.method(t[2], t[3:])
            if t[1][:2] == ('f', 'super'):
                for c in self.repo.mro(self.cls)[1:]:
                    ci = self.repo.classes.get(c)
                    if ci and t[2] in ci.methods:
                        v = self.result(ci.methods[t[2]], t[3:])
                        if v is not None: return self.ok(v)
                self.unclear = True
                return True
            good = self.ok(t[1])
            for x in t[3:]: good &= self.ok(x)
            return good and self.part(t)
        return all([self.ok(x) for x in t[1:] if isinstance(x, tuple)])
    def cls_of(self, t):
        """The library class of a term, when it is a field of self of a known class."""
        if t == SELF: return self.cls
        if t[0] == 'attr' and t[1] == SELF:
            for c in self.repo.mro(self.cls):
                f = FIELDS.get(c, {}).get(t[2])
                if f:
                    I = Api(self.repo); st = State()
                    try: v = f(I, st, next(iter(E.receiver(self.cls)[0])), ast.Pass(lineno=0, col_offset=0))
                    except Exception: return None
                    cs = {x.cls for x in v if isinstance(x, Obj)}
                    return cs.pop() if len(cs) == 1 and len(v) == 1 else None
        if t[0] == 'm' and t[2] == '__getitem__':
            base = t[1]
            if base == SELF:
                r = self.repo.find_method(self.cls, '__getitem__')
                v = r and self.result(r[1], t[3:])
                return v and self.cls_of(v)
            if base[0] == 'attr' and base[1] == SELF:
                for c in self.repo.mro(self.cls):
                    f = FIELDS.get(c, {}).get(base[2])
                    if f:
                        I = Api(self.repo); st = State()
                        try: v = f(I, st, next(iter(E.receiver(self.cls)[0])), ast.Pass(lineno=0, col_offset=0))
                        except Exception: return None
                        cs = {x.cls if isinstance(x, Obj) else None for r in v if isinstance(r, Ref) for x in st.heap[r.oid].elem}
                        return cs.pop() if len(cs) == 1 else None
        return None
    def part(self, t):
        """A part of an object that is compared as a whole: is it the same for equal objects?"""
        c = self.cls_of(t[1])
        if c is None: 
            self.unclear |= t[0] == 'attr'
            return True
        sub = hash_checker(self.repo, c)
        if sub is None: self.unclear = True; return True
        good = sub.ok((t[0], SELF) + t[2:])
        if not good and not sub.unclear:
            self.complain(f'{show(t)}, which may differ for equal objects'); return False
        return True
    def field(self, f):
        t = ('attr', SELF, f)
        if self.known(t): return True
        if f == '__class__' or f == '__dict__':
            if not self.eq.unclear: self.complain(f'self.{f}, which equality does not compare')
            return False
        if f in self.seen: return self.seen[f]
        self.seen[f] = True
        self.seen[f] = r = self.derived(f)
        return r
    def derived(self, f):
        if 'Triangulation' in self.repo.mro(self.cls) and f == 'triangles' and ('attr', SELF, 'signature') in self.obs: return True    # the signature spells out the triangles
        props = self.repo.find_method(self.cls, f)
        if props: return self.method(f, ())
        exprs = []
        for c in self.repo.mro(self.cls):
            ci = self.repo.classes.get(c)
            init = ci and ci.methods.get('__init__')
            if init is None: continue
            ps = params(init)
            env = {ps[0]: SELF}
            stored = {}
            for s in own_nodes(init):
                if isinstance(s, ast.Assign):
                    for tg in s.targets:
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == ps[0]:
                            v = s.value
                            while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple') and len(v.args) == 1: v = v.args[0]
                            if isinstance(v, ast.Name) and v.id in ps[1:]: stored.setdefault(v.id, ('attr', SELF, tg.attr))
                            if tg.attr == f: exprs.append((s.value, ps))
            for p in ps[1:]: env[p] = stored.get(p, ('param', p))
            if exprs:
                for e, ps in exprs:
                    v = self.T.of(e, env)
                    if v == t_(f) or mentions(v, ('param',)): pass
                    if v == t_(f) or has_param(v) or (isinstance(e, ast.Call) and v[0] == 'f' and v[1] in ('list', 'tuple') and v[2:] == (t_(f),)):
                        if self.eq.unclear: self.unclear = True; return True
                        self.complain(f'self.{f}, which equality does not compare'); return False
                    if not self.ok(v): return False
                return True
        self.unclear = True
        return True
    def method(self, name, args):
        t = ('m', SELF, name) + tuple(args)
        if self.known(t): return True
        r = self.repo.find_method(self.cls, name)
        if r is None: self.unclear = True; return True
        good = all([self.ok(a) for a in args])
        v = self.result(r[1], args)
        if v is not None: return good and self.ok(v)
        key = ('method', name)
        if key in self.seen: return self.seen[key]
        self.seen[key] = True
        # a longer method: everything that it reads of self
        me = params(r[1])[0] if params(r[1]) else None
        iters = [n.iter for n in ast.walk(r[1]) if isinstance(n, (ast.For, ast.comprehension))]
        iters += [a for n in ast.walk(r[1]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'iter', 'enumerate', 'list', 'tuple', 'zip', 'map', 'sorted') for a in n.args]
        if any(isinstance(i, ast.Name) and i.id == me for i in iters):
            d = self.iterable(SELF)
            self.seen[key] &= d == SELF or self.ok(d, 'set')
        for n in ast.walk(r[1]):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                m_ = self.repo.find_method(self.cls, n.attr)
                if n.attr.startswith('__') and not m_: continue
                self.seen[key] &= good and (self.method(n.attr, ()) if m_ else self.field(n.attr))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == me: self.seen[key] &= self.method('__call__', ())
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == me: self.seen[key] &= self.method('__getitem__', ())
        return self.seen[key]
def t_(f): return ('attr', SELF, f)
def has_param(t): return isinstance(t, tuple) and (t[:1] == ('param',) or any(has_param(x) for x in t if isinstance(x, tuple)))
_H = {}
def hash_checker(repo, cls):
    r = repo.find_method(cls, '__eq__')
    if r is None: return None
    if (id(repo), cls) not in _H: _H[id(repo), cls] = None; _H[id(repo), cls] = Hash(repo, cls, Eq(repo, cls, r[0], r[1]))
    return _H[id(repo), cls]

def hash_terms(repo, cls, fn):
    """Everything a hash returns, or combines on the way."""
    T = Terms()
    ps = params(fn)
    out = []
    def run(body, env):
        env = dict(env)
        for s in body:
            if isinstance(s, ast.Return): out.append(T.of(s.value, env))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): env[s.targets[0].id] = T.of(s.value, env)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                out.append(T.of(s.value, env))
                env[s.target.id] = ('op', 'acc', env.get(s.target.id, ('c', 0)), T.of(s.value, env))
            elif isinstance(s, ast.If): out.append(T.of(s.test, env)); run(s.body, env); run(s.orelse, env)
            elif isinstance(s, ast.For):
                d = T.of(s.iter, env)
                commutes = all(isinstance(n.op, (ast.Add, ast.BitXor, ast.BitAnd, ast.BitOr)) for n in ast.walk(s) if isinstance(n, ast.AugAssign)) and not any(isinstance(n, (ast.Assign, ast.Call)) and not isinstance(n, ast.Call) for n in ast.walk(s))
                depth = env.get('#depth', ('c', 0))[1]
                inner = dict(env); inner.update(T.target(s.target, depth)); inner['#depth'] = ('c', depth + 1)
                out.append(('f', 'sum' if commutes else 'tuple', d)); run(s.body, inner)
            elif isinstance(s, ast.Try): run(s.body, env); [run(h.body, env) for h in s.handlers]; run(s.orelse + s.finalbody, env)
    run(fn.body, {ps[0]: SELF})
    return out

# ------------------------------------------------------------------ foreign operands
def related(repo, a, b): return a == b or repo.is_sub(a, b) or repo.is_sub(b, a) or bool((set(repo.mro(a)) & set(repo.mro(b))) - {'object', 'ABC', 'Move', 'FlipGraphMove'})
def foreigners(repo, cls):
    C = lambda v: (lambda c, n: v)
    out = [('None', C(NONE)), ('a string', C(k('abc'))), ('a float', C(k(0.5))), ('a tuple', lambda c, n: c.rec('tuple', n, items=[k(0)])), ('a list', lambda c, n: c.rec('list', n, items=[k(0)])),
        ('an empty tuple', lambda c, n: c.rec('tuple', n, items=[])), ('a dictionary', lambda c, n: c.rec('dict', n, items=[])), ('True', C(TRUE)), ('False', C(FALSE)), ('a function', C(one(Ext('len')))), ('a class', C(one(Cls('Edge'))))]
    if cls != 'Edge': out += [('an integer', C(INT)), ('0', C(k(0)))]
    else: out = [x for x in out if x[0] not in ('True', 'False', 'a float')]
    for o in E.CONCRETE:
        if o in repo.classes and not related(repo, cls, o):
            out.append((f'an instance of {o}', lambda c, n, o=o: E.receiver(o, org=E.ARG)[0]))
    return out
NEQ = [(a, b) for a in 'FG' for b in 'XY']
def others(repo, cls):
    """Objects of related classes, on the same triangulation and on another."""
    out = []
    for o in E.CONCRETE:
        if o in repo.classes and related(repo, cls, o):
            v = E.receiver(o, org=E.ARG)[0]
            a = next(iter(v))
            if isinstance(a, Obj) and a.fr:
                out.append((f'a {o} on another triangulation', lambda c, n, a=a: one(a._replace(fr=tuple('XY'[j] if len(set(a.fr)) > 1 else 'X' for j in range(len(a.fr)))))))
                out.append((f'a {o} on the same triangulation', lambda c, n, a=a: one(a._replace(fr=(c.F, c.G)[:len(a.fr)]))) if len(set(a.fr)) == len(a.fr) else (f'a {o} on the same triangulation', lambda c, n, a=a: one(a._replace(fr=tuple(c.F for _ in a.fr)))))
    return out

def answers(rets):
    """'yes', 'no', 'maybe', 'nothing known' over all returned atoms."""
    out = set()
    for s, v in rets:
        for x in v:
            if x in FALSE or x in NI: out.add('no')
            elif x in TRUE: out.add('yes')
            elif isinstance(x, Bool): out.add('maybe')
            elif x == TOPA: out.add('?')
            elif isinstance(x, K): out.add('yes' if x.v else 'no')
            else: out.add('other')
    return out

def totality(repo, rep):
    es = [e for e in E.entries(repo, all_=True) if e.cls and e.node.name in ('__eq__', '__ne__') and e.cls in repo.classes]
    for e in es:
        p = params(e.node)
        if len(p) < 2: continue
        for what, b in foreigners(repo, e.cls):
            rep.count('comparisons with foreign values')
            I = Api(repo, gated=True)
            try: rets, sink, v, st = E.run_entry(I, e, {p[1]: b})
            except RecursionError: raise
            except Exception as x: rep.note(f'{e.name} with {what}: not analysed ({type(x).__name__}: {x})'); rep.count('comparisons not analysed'); continue
            if I.guards: rep.count('comparisons undecided'); continue
            where = repo.where(e.node)
            for s, exc, n, stack in sink:
                rep.finding('raises', where, f'{e.cls}.{e.node.name} raises {exc} when given {what}', getattr(n, 'lineno', 0))
            for ev in I.events:
                if ev['rule'] == 'attr': rep.finding('raises', where, f'{e.cls}.{e.node.name} given {what}: {ev["detail"]}', ev['line'])
            a = answers(rets)
            if e.node.name == '__eq__' and 'yes' in a: rep.finding('equal', where, f'{e.cls}.__eq__ answers True when given {what}', e.node.lineno)
            if e.node.name == '__eq__' and ('maybe' in a or 'other' in a): rep.finding('equal', where, f'{e.cls}.__eq__ can answer other than False when given {what}', e.node.lineno)
            if e.node.name == '__ne__' and a == {'no'} and not any(x in NI for _, w in rets for x in w): rep.finding('equal', where, f'{e.cls}.__ne__ answers False when given {what}', e.node.lineno)
        for what, b in others(repo, e.cls):
            rep.count('comparisons with related objects')
            I = Api(repo, gated=True, neq=NEQ)
            try: rets, sink, v, st = E.run_entry(I, e, {p[1]: b})
            except RecursionError: raise
            except Exception as x: rep.note(f'{e.name} with {what}: not analysed ({type(x).__name__}: {x})'); continue
            if e.cls in LAMS + ENC + FLIPMOVES + OTHERMOVES + ('HomologyClass', 'MappingClassGroup') and what.endswith('another triangulation') and answers(rets) & {'yes', 'maybe'} and e.node.name == '__eq__' and not I.guards:
                rep.finding('equal', repo.where(e.node), f'{e.cls}.__eq__ can answer True when given {what}', e.node.lineno)
            for s, exc, n, stack in sink:
                if e.cls == 'Permutation': continue
                rep.finding('raises', repo.where(e.node), f'{e.cls}.{e.node.name} raises {exc} when given {what}', getattr(n, 'lineno', 0))
            for ev in I.events:
                if ev['rule'] in ('mix', 'meet', 'attr'): rep.finding('raises', repo.where(e.node), f'{e.cls}.{e.node.name} given {what}: {ev["detail"]}', ev['line'])

# ------------------------------------------------------------------ hashing
def hashing(repo, rep):
    for cls, ci in sorted(repo.classes.items()):
        if not ci.module.dotted.startswith(KERNEL): continue
        eq, hs = repo.find_method(cls, '__eq__'), repo.find_method(cls, '__hash__')
        if eq is None: continue
        if hs is None: rep.count('classes that cannot be hashed'); continue
        mro = repo.mro(cls)
        rep.count('hash and equality pairs')
        if mro.index(eq[0]) < mro.index(hs[0]):
            rep.finding('unhashable', repo.where(eq[1]), f'{eq[0]} defines __eq__ without __hash__, so its instances can no longer be put in sets although those of {hs[0]} can', eq[1].lineno)
            continue
        q = Eq(repo, cls, eq[0], eq[1])
        if not q.paths and not q.unclear: continue
        h = Hash(repo, cls, q)
        terms = hash_terms(repo, cls, hs[1])
        for t in terms:
            h.ok(t)
            rep.count('hash expressions')
            rep.sample(f'{cls}: hash {show(t)[:100]}; compared: ' + (', '.join(sorted(show(x) for x in q.obs)) if q.obs != EVERYTHING else EVERYTHING)[:200])
        if h.unclear: rep.note(f'{cls}: part of the hash could not be followed')
        if q.unclear: rep.note(f'{cls}: part of the equality could not be followed')
        if not q.unclear:
            for b in h.bad: rep.finding('hash', repo.where(hs[1]), f'equal {cls} objects can hash differently: the hash depends on {b}', hs[1].lineno)
        # equality with plain values
        for a in q.cross:
            rep.count('equalities with plain values')
            for t in terms:
                while t[:2] == ('f', 'hash') and len(t) == 3: t = t[2]
                if t != a and t[0] in ('tuple', 'each', 'op') or t[:2] in (('f', 'tuple'), ('f', 'str'), ('f', 'repr'), ('f', 'frozenset')):
                    rep.finding('hash', repo.where(hs[1]), f'a {cls} equals the value of {show(a)} but hashes as {show(t)}', hs[1].lineno)
        # equality with objects of a base class that hash otherwise
        if q.foreign:
            for b in mro[1:]:
                bh = repo.classes.get(b) and repo.find_method(b, '__hash__')
                if bh and bh[1] is not hs[1]:
                    rep.count('equalities across classes')
                    mine, theirs = set(terms), set(hash_terms(repo, b, bh[1]))
                    if mine != theirs: rep.finding('hash', repo.where(eq[1]), f'a {eq[0]} can equal a {b} but they hash differently', eq[1].lineno)
                    break

# ------------------------------------------------------------------ constructors
CTOR = [('Permutation', (('perm', (0, 1, 2)),), 'perm'), ('Triangle', (('edges', ('e0', 'e1', 'e2')),), 'edges'),
    ('Lamination', (('triangulation', None), ('geometric', (0, 1, 2))), 'geometric'), ('HomologyClass', (('triangulation', None), ('algebraic', (0, 1, 2))), 'algebraic'),
    ('FiniteSubgroup', (('mapping_classes', {}), ('generators', ('a', 'b'))), 'generators')]
def constructors(repo, rep):
    for cls, args, field in CTOR:
        fn = repo.method(cls, '__init__')
        ps = params(fn)[1:]
        kinds = {}
        for kind in ('list', 'tuple'):
            e = [x for x in E.entries(repo, all_=True) if x.cls == cls and x.node is fn][0]
            over = {}
            for p, v in args:
                if v is None: continue
                if v == {}: over[p] = lambda c, n: c.rec('dict', n, items=[(k(x), objs('MappingClass', 'F', 'F')) for x in 'ab'])
                else: over[p] = lambda c, n, v=v: c.rec(kind, n, items=[one(EdgeA('F', ('e', x))) if str(x).startswith('e') else k(x) for x in v])
            I = Api(repo, gated=True)
            I.assume_zeta = 3
            try: rets, sink, v, st = E.run_entry(I, e, over)
            except RecursionError: raise
            except Exception as x: rep.note(f'{cls}: constructor not analysed ({type(x).__name__}: {x})'); break
            got = set()
            for s, _ in rets:
                for o, r in s.heap.items():
                    if r.kind == 'inst' and r.cls == cls and field in (r.fields or {}):
                        for x in r.fields[field]: got.add(s.heap[x.oid].kind if isinstance(x, Ref) else type(x).__name__)
            kinds[kind] = got
        if len(kinds) == 2 and all(kinds.values()):
            rep.count('constructors compared')
            if kinds['list'] != kinds['tuple']:
                rep.finding('container', repo.where(fn), f'{cls}({field}) stores a {"/".join(sorted(kinds["list"]))} given a list but a {"/".join(sorted(kinds["tuple"]))} given a tuple, so equal contents compare different', fn.lineno)

def check(repo, rep):
    rep.rule('Abstract interpretation of every __eq__ and __ne__ of the kernel against operands of each unrelated type: no exception can escape and the only answers are False and NotImplemented; against operands on another triangulation no exception can escape.')
    rep.rule('Access paths: on every path on which an equality can answer True the terms of self and other that it has compared are collected; a hash may only be built from those, from fields the constructor derives from those, and may not depend on an order that equality ignores; a class whose equality accepts plain values or objects of a base class must hash as these do.')
    rep.rule('Abstract interpretation of constructors: a field compared by equality is stored in the same kind of container whether it was given as a list or a tuple.')
    _H.clear()
    totality(repo, rep)
    hashing(repo, rep)
    constructors(repo, rep)
    rep.need('comparisons with foreign values', 300); rep.need('hash and equality pairs', 12); rep.need('hash expressions', 12); rep.need('constructors compared', 4)
    if rep.counts.get('comparisons not analysed', 0) > 40: from repo import AnalysisError; raise AnalysisError('too many comparisons could not be analysed')
