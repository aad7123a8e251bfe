"""Linear terms over opaque symbols, with max / ite / floor-division symbols, and a small polyhedral domain
(Fourier-Motzkin elimination over the rationals) used to decide piecewise-linear facts without any solver."""
from fractions import Fraction as Q

def lin(d, c=0):
    d = {s: q for s, q in d.items() if q != 0}
    return ('lin', tuple(sorted(d.items(), key=lambda x: repr(x[0]))), c)
def const(c): return ('lin', (), c)
def sym(s): return ('lin', ((s, 1),), 0)
def is_const(t): return t is not None and not t[1]
def add(a, b, k=1):
    if a is None or b is None: return None
    d = dict(a[1])
    for s, q in b[1]: d[s] = d.get(s, 0) + k * q
    return lin(d, a[2] + k * b[2])
def sub(a, b): return add(a, b, -1)
def scale(a, k): return None if a is None else lin({s: q * k for s, q in a[1]}, a[2] * k)
def mul(a, b):
    if a is None or b is None: return None
    if is_const(a): return scale(b, a[2])
    if is_const(b): return scale(a, b[2])
    return sym(('mul',) + tuple(sorted((a, b), key=repr)))
def tmax(ts):
    ts = list(ts)
    if any(t is None for t in ts): return None
    flat = []
    for t in ts:
        if len(t[1]) == 1 and t[2] == 0 and t[1][0][1] == 1 and isinstance(t[1][0][0], tuple) and t[1][0][0][0] == 'max': flat.extend(t[1][0][0][1])
        elif t not in flat: flat.append(t)
    cs = [t for t in flat if is_const(t)]
    rest = []
    for t in flat:
        if not is_const(t) and t not in rest: rest.append(t)
    if cs: rest.append(max(cs, key=lambda t: t[2]))
    if len(rest) == 1: return rest[0]
    return sym(('max', tuple(sorted(rest, key=repr))))
def tmin(ts):
    ts = list(ts)
    if any(t is None for t in ts): return None
    return scale(tmax([scale(t, -1) for t in ts]), -1)
def ite(c, a, b):
    if a == b: return a
    if c is None or a is None or b is None: return None
    return sym(('ite', c, a, b))
def fdiv(a, n):
    if a is None: return None
    if is_const(a): return const(a[2] // n)
    if n == 1: return a
    return sym(('fdiv', a, n))
def app(f, *args): return sym(('app', f) + args)

# conditions
def ge0(t):
    if t is None: return None
    if is_const(t): return t[2] >= 0
    return ('ge0', t)
def gt0(t):   # t > 0, kept strict (weights may be rational)
    if t is None: return None
    if is_const(t): return t[2] > 0
    return ('gt0', t)
def eq0(t):
    if t is None: return None
    if is_const(t): return t[2] == 0
    if t[1][0][1] < 0: t = scale(t, -1)
    return ('eq0', t)
def neg(c):
    if c is None: return None
    if isinstance(c, bool): return not c
    if c[0] == 'ge0': return gt0(scale(c[1], -1))
    if c[0] == 'gt0': return ge0(scale(c[1], -1))
    if c[0] == 'not': return c[1]
    return ('not', c)
def conj(cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        if c is None: return None
        if c[0] == 'and': out.extend(x for x in c[1] if x not in out)
        elif c not in out: out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else ('and', tuple(out))
def disj(cs):
    cs = list(cs)
    n = conj([neg(c) if c is not None else None for c in cs])
    return neg(n) if n is not None else None

# ---------------------------------------------------------------- polyhedra
# constraint: (coeffs tuple of (sym,q), const, strict)   meaning  sum + const >= 0   (> 0 if strict)
def feasible(cons):
    """Rational feasibility of a conjunction of linear (in)equalities by Fourier-Motzkin elimination."""
    rows = []
    for d, c, s in cons:
        rows.append(({k: Q(v) for k, v in dict(d).items() if v != 0}, Q(c), s))
    while True:
        new = []
        seen = set()
        for d, c, s in rows:
            if not d:
                if c < 0 or (s and c == 0): return False
                continue
            m = max(abs(v) for v in d.values())
            key = (tuple(sorted(((repr(k), v / m) for k, v in d.items()))), c / m, s)
            if key in seen: continue
            seen.add(key); new.append((d, c, s))
        rows = new
        if not rows: return True
        count = {}
        for d, c, s in rows:
            for kk, v in d.items():
                p, n = count.get(kk, (0, 0))
                count[kk] = (p + (v > 0), n + (v < 0))
        x = min(count, key=lambda y: (count[y][0] * count[y][1] - count[y][0] - count[y][1], repr(y)))
        pos = [r for r in rows if r[0].get(x, 0) > 0]
        neg_ = [r for r in rows if r[0].get(x, 0) < 0]
        out = [r for r in rows if r[0].get(x, 0) == 0]
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg_:
                a, b = d1[x], -d2[x]
                d = {}
                for kk in set(d1) | set(d2):
                    if kk == x: continue
                    v = d1.get(kk, 0) * b + d2.get(kk, 0) * a
                    if v: d[kk] = v
                out.append((d, c1 * b + c2 * a, s1 or s2))
        rows = out
        if len(rows) > 4000: return True   # give up: treat as feasible (never used to prove)

class Cannot(Exception): pass

def expand(t, cons, budget=None):
    """All (constraints, linear term over base symbols) pieces of t compatible with cons."""
    work = [(list(cons), t)]
    done = []
    while work:
        cs, t = work.pop()
        hit = None
        for s, q in t[1]:
            if isinstance(s, tuple) and s[0] in ('max', 'ite', 'fdiv'): hit = (s, q); break
        if hit is None: done.append((cs, t)); continue
        s, q = hit
        rest = lin({a: b for a, b in t[1] if a != s}, t[2])
        if s[0] == 'max':
            for i, m in enumerate(s[1]):
                for cs2 in with_conds([ge0(sub(m, o)) if j > i else gt0(sub(m, o)) for j, o in enumerate(s[1]) if j != i], cs):
                    work.append((cs2, add(rest, m, q)))
        elif s[0] == 'ite':
            for cs2 in with_conds([s[1]], cs): work.append((cs2, add(rest, s[2], q)))
            for cs2 in with_conds([neg(s[1])], cs): work.append((cs2, add(rest, s[3], q)))
        else:
            raise Cannot('floor division')
        if len(done) + len(work) > 5000: raise Cannot('too many pieces')
    return done

def with_conds(conds, cons):
    """Constraint systems covering cons and all conds (feasible ones only)."""
    systems = [list(cons)]
    for c in conds:
        nxt = []
        for cs in systems: nxt.extend(with_cond(c, cs))
        systems = nxt
    return systems

def with_cond(c, cs):
    if c is True: return [cs]
    if c is False: return []
    if c is None: raise Cannot('unknown condition')
    if c[0] in ('ge0', 'gt0'):
        out = []
        for cs2, l in expand(c[1], cs):
            new = cs2 + [(l[1], l[2], c[0] == 'gt0')]
            if feasible(new): out.append(new)
        return out
    if c[0] == 'eq0':
        return [z for y in with_cond(ge0(c[1]), cs) for z in with_cond(ge0(scale(c[1], -1)), y)]
    if c[0] == 'and': return with_conds(c[1], cs)
    if c[0] == 'not':
        d = c[1]
        if d[0] == 'eq0': return with_cond(gt0(d[1]), cs) + with_cond(gt0(scale(d[1], -1)), cs)
        if d[0] == 'and':
            out, pre = [], [cs]
            for x in d[1]:
                for p in pre: out.extend(with_cond(neg(x), p))
                pre = [q for p in pre for q in with_cond(x, p)]
            return out
    raise Cannot(f'condition {c[0]}')

def equal_on(t1, t2, cons):
    """None if t1 == t2 on every point of cons, else a description of a region where they differ."""
    if t1 == t2: return None
    d = sub(t1, t2)
    for cs, l in expand(d, cons):
        if not l[1] and l[2] == 0: continue
        for strict in (l, scale(l, -1)):
            if feasible(cs + [(strict[1], strict[2], True)]): return cs, l
    return None

def show(t):
    if t is None: return '?'
    parts = [f'{"" if q == 1 else str(q) + "*"}{s if isinstance(s, str) else s[0] + "(..)"}' for s, q in t[1]]
    if t[2] or not parts: parts.append(str(t[2]))
    return ' + '.join(parts)

# ---------------------------------------------------------------- cells: relatively open polyhedral cones given by their rays
class Split(Exception):
    def __init__(self, form): self.form = form

def base_symbols(t, out=None):
    """The opaque symbols a term is built from."""
    out = set() if out is None else out
    if t is None: raise Cannot('unknown term')
    for s, q in t[1]:
        if isinstance(s, tuple) and s[0] == 'max':
            for x in s[1]: base_symbols(x, out)
        elif isinstance(s, tuple) and s[0] == 'ite':
            cond_symbols(s[1], out); base_symbols(s[2], out); base_symbols(s[3], out)
        elif isinstance(s, tuple) and s[0] == 'mul':
            for x in s[1:]: base_symbols(x, out)
        elif isinstance(s, tuple) and s[0] == 'fdiv': raise Cannot(s[0])
        else: out.add(s)
    return out
def cond_symbols(c, out):
    if isinstance(c, bool): return
    if c is None: raise Cannot('unknown condition')
    if c[0] in ('ge0', 'gt0', 'eq0'): base_symbols(c[1], out)
    elif c[0] == 'and':
        for x in c[1]: cond_symbols(x, out)
    elif c[0] == 'not': cond_symbols(c[1], out)
    else: raise Cannot(f'condition {c[0]}')

class Cell:
    """A relatively open cone: all combinations of the rays with positive coefficients."""
    __slots__ = ('rays', 'memo')
    def __init__(self, rays, memo=None): self.rays, self.memo = rays, memo if memo is not None else {}
    def sign(self, v):
        p = n = False
        nz = [(i, a) for i, a in enumerate(v) if a]
        for r in self.rays:
            d = 0
            for i, a in nz: d += a * r[i]
            if d > 0: p = True
            elif d < 0: n = True
            if p and n: raise Split(v)
        return 1 if p else -1 if n else 0
    def split(self, v):
        vals = [sum(a * b for a, b in zip(v, r)) for r in self.rays]
        pos = [(r, x) for r, x in zip(self.rays, vals) if x > 0]
        neg_ = [(r, x) for r, x in zip(self.rays, vals) if x < 0]
        zero = [r for r, x in zip(self.rays, vals) if x == 0]
        cut = set()
        for r, x in pos:
            for s, y in neg_: cut.add(prim(tuple(x * b - y * a for a, b in zip(r, s))))
        cut = minimal(list(cut) + zero)
        # the rays of a side are its old rays and the rays of the cut; rays of the cut that are not needed do no harm
        return [Cell([r for r, _ in pos] + cut, dict(self.memo)), Cell(cut, dict(self.memo)) if cut else None, Cell([r for r, _ in neg_] + cut, dict(self.memo))]

def prim(v):
    from math import gcd
    g = 0
    for x in v: g = gcd(g, x)
    return tuple(x // g for x in v) if g > 1 else tuple(v)
def minimal(rays):
    """Drop rays that are sums of two others (the cheap redundancies)."""
    rays = list(dict.fromkeys(rays))
    if len(rays) <= 4: return rays
    have, drop = set(rays), set()
    for i, a in enumerate(rays):
        for b in rays[i + 1:]:
            s = prim(tuple(x + y for x, y in zip(a, b)))
            if s in have and s != a and s != b: drop.add(s)
    return [r for r in rays if r not in drop]

def size(t, cap=20000):
    """The number of symbols of the term written out, up to cap."""
    work, n = [t], 0
    while work and n < cap:
        t = work.pop()
        if t is None or isinstance(t, (bool, str)): continue
        if t[0] in ('ge0', 'gt0', 'eq0', 'not'): work.append(t[1]); continue
        if t[0] == 'and': work.extend(t[1]); continue
        for s, q in t[1]:
            n += 1
            if isinstance(s, tuple) and s and s[0] == 'max': work.extend(s[1])
            elif isinstance(s, tuple) and s and s[0] in ('ite', 'mul'): work.extend(s[1:])
            elif isinstance(s, tuple) and s and s[0] == 'fdiv': work.append(s[1])
    return n

def unfloor(t):
    """The term with rounded quotients made exact, as they are at suitable multiples of every point; only for terms without constants."""
    if t is None: return None
    if t[2]: raise Cannot('a constant')
    r = const(0)
    for s, q in t[1]:
        if isinstance(s, tuple) and s and s[0] == 'fdiv': x = scale(unfloor(s[1]), Q(1, s[2]))
        elif isinstance(s, tuple) and s and s[0] == 'max': x = tmax([unfloor(y) for y in s[1]])
        elif isinstance(s, tuple) and s and s[0] == 'ite': x = ite(unfloor_cond(s[1]), unfloor(s[2]), unfloor(s[3]))
        elif isinstance(s, tuple) and s and s[0] == 'mul': raise Cannot('a product')
        else: x = sym(s)
        r = add(r, scale(x, q))
    return r
def unfloor_cond(c):
    if c is None or isinstance(c, bool): return c
    if c[0] in ('ge0', 'gt0', 'eq0'): return {'ge0': ge0, 'gt0': gt0, 'eq0': eq0}[c[0]](unfloor(c[1]))
    if c[0] == 'not': return neg(unfloor_cond(c[1]))
    if c[0] == 'and': return conj([unfloor_cond(x) for x in c[1]])
    raise Cannot(f'condition {c[0]}')

def rename(t, f):
    """The term with its base symbols renamed."""
    if t is None: return None
    r = const(t[2])
    for s, q in t[1]: r = add(r, scale(rename_symbol(s, f), q))
    return r
def rename_symbol(s, f):
    if isinstance(s, tuple) and s[0] == 'max': return tmax([rename(x, f) for x in s[1]])
    if isinstance(s, tuple) and s[0] == 'ite': return ite(rename_cond(s[1], f), rename(s[2], f), rename(s[3], f))
    if isinstance(s, tuple) and s[0] == 'mul': return mul(rename(s[1], f), rename(s[2], f))
    if isinstance(s, tuple) and s[0] == 'fdiv': return fdiv(rename(s[1], f), s[2])
    return sym(f(s))
def rename_cond(c, f):
    if c is None or isinstance(c, bool): return c
    if c[0] == 'ge0': return ge0(rename(c[1], f))
    if c[0] == 'gt0': return gt0(rename(c[1], f))
    if c[0] == 'eq0': return eq0(rename(c[1], f))
    if c[0] == 'not': return neg(rename_cond(c[1], f))
    if c[0] == 'and': return conj([rename_cond(x, f) for x in c[1]])
    raise Cannot(f'condition {c[0]}')

def at_point(t, env):
    """The value of a term where its symbols have the given values."""
    v = t[2]
    for s, q in t[1]: v = v + q * (env[s] if s in env else symbol_at(s, env))
    return v
def symbol_at(s, env):
    if s[0] == 'max': return max(at_point(x, env) for x in s[1])
    if s[0] == 'ite': return at_point(s[2] if cond_at(s[1], env) else s[3], env)
    if s[0] == 'mul': return at_point(s[1], env) * at_point(s[2], env)
    if s[0] == 'fdiv': return at_point(s[1], env) // s[2]
    raise Cannot(s[0])
def cond_at(c, env):
    if isinstance(c, bool): return c
    if c[0] == 'and': return all(cond_at(x, env) for x in c[1])
    if c[0] == 'not': return not cond_at(c[1], env)
    if c[0] not in ('ge0', 'gt0', 'eq0'): raise Cannot(c[0])
    v = at_point(c[1], env)
    return v >= 0 if c[0] == 'ge0' else v > 0 if c[0] == 'gt0' else v == 0
def separated(a, b, syms):
    """A point at which two terms take different values, when one is found quickly."""
    syms = sorted(syms, key=repr)
    for pat in ((2, 3, 5), (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 2, 4), (3, -2, 6), (7, 4, -1), (1, 1, 2), (4, 4, 6), (-2, -3, 0), (2, 2, 2), (6, 3, 3)):
        for j in range(3):
            env = {s: pat[(i + j) % 3] * 2 + (i // 3 if pat[0] > 1 else 0) for i, s in enumerate(syms)}
            if at_point(a, env) != at_point(b, env): return env
    return None

class Cells:
    """Decides equalities of piecewise-linear terms over the given symbols, exactly and on boundaries too."""
    def __init__(self, syms, signs=None, limit=60000):
        self.syms = sorted(syms, key=repr)
        self.index = {s: i for i, s in enumerate(self.syms)}
        self.n = len(self.syms) + 1                       # the last coordinate is the constant 1
        self.signs, self.limit = signs or {}, limit
        self.count = 0
    def initial(self):
        """One cell for each pattern of signs."""
        from itertools import product as prod
        unit = lambda i, s: tuple(s if j == i else 0 for j in range(self.n))
        for pat in prod(*[self.signs.get(s, (1, 0, -1)) for s in self.syms]):
            yield Cell([unit(i, s) for i, s in enumerate(pat) if s] + [unit(self.n - 1, 1)])
    D = 16                                                # forms are kept in units of 1/D, as integers when possible
    def vec(self, t, cell):
        out = [0] * self.n
        out[-1] = self.times(self.D, t[2])
        for s, q in t[1]:
            i = self.index.get(s)
            if i is not None: out[i] += self.times(self.D, q)
            else:
                for i, x in enumerate(self.symbol(s, cell)):
                    if x: out[i] += x if q == 1 else -x if q == -1 else self.times(x, q)
        return tuple(out)
    @staticmethod
    def times(x, q):
        if isinstance(q, int): return x * q
        y = x * q.numerator
        return y // q.denominator if isinstance(y, int) and y % q.denominator == 0 else Q(y) / q.denominator
    def integral(self, v):
        if all(type(x) is int for x in v): return v
        from math import lcm
        m = 1
        for x in v: m = lcm(m, Q(x).denominator)
        return tuple(int(x * m) for x in v)
    def sgn(self, v, cell): return cell.sign(self.integral(v))
    def symbol(self, s, cell):
        k_ = id(s)
        if k_ in cell.memo: return cell.memo[k_][1]
        if s[0] == 'max':
            best = None
            for x in s[1]:
                v = self.vec(x, cell)
                if best is None or self.sgn(tuple(a - b for a, b in zip(v, best)), cell) > 0: best = v
        elif s[0] == 'ite': best = self.vec(s[2] if self.holds(s[1], cell) else s[3], cell)
        elif s[0] == 'mul':
            a, b = self.vec(s[1], cell), self.vec(s[2], cell)
            if any(a[:-1]): a, b = b, a
            if any(a[:-1]): raise Cannot('a product of two variables')
            best = tuple(self.times(x, Q(a[-1], self.D)) for x in b)
        else: raise Cannot(s[0])
        cell.memo[k_] = (s, best)
        return best
    def holds(self, c, cell):
        if isinstance(c, bool): return c
        if c[0] == 'and': return all(self.holds(x, cell) for x in c[1])
        if c[0] == 'not': return not self.holds(c[1], cell)
        s = self.sgn(self.vec(c[1], cell), cell)
        return s >= 0 if c[0] == 'ge0' else s > 0 if c[0] == 'gt0' else s == 0
    def differ(self, pairs, given=()):
        """A cell on which given holds and some pair of terms differs: (cell, index of the pair), or None."""
        work = list(self.initial())
        while work:
            cell = work.pop()
            self.count += 1
            if self.count > self.limit: raise Cannot('too many cells')
            try:
                if not all(self.holds(g, cell) for g in given): continue
                for j, (a, b) in enumerate(pairs):
                    if a != b:
                        d = self.integral([x - y for x, y in zip(self.vec(a, cell), self.vec(b, cell))])
                        if any(d) and any(sum(x * y for x, y in zip(d, r)) for r in cell.rays): return cell, j
            except Split as s:
                work.extend(c for c in cell.split(s.form) if c is not None and len(c.rays))
        return None
    def values(self, terms, given=()):
        """All tuples of linear forms the terms take, each with a cell on which it does."""
        work, out = list(self.initial()), {}
        while work:
            cell = work.pop()
            self.count += 1
            if self.count > self.limit: raise Cannot('too many cells')
            try:
                if all(self.holds(g, cell) for g in given): out.setdefault(tuple(tuple(Q(x) / self.D for x in self.vec(t, cell)) for t in terms), cell)
            except Split as s:
                work.extend(c for c in cell.split(s.form) if c is not None and len(c.rays))
        return out
    def point(self, cell):
        """A point of the cell."""
        v = [sum(r[i] for r in cell.rays) for i in range(self.n)]
        return {s: v[i] for i, s in enumerate(self.syms)}
