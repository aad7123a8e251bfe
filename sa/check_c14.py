"""C14: example surfaces are well formed for every genus and puncture count.

The loaders are read twice.  Their label lists are evaluated with genus and puncture count symbolic: the labels of all
triangles, as a generating function in x with exponents linear in g and n, must be 1 + x + ... + x^(zeta-1) for either
orientation, and vectors must have zeta entries.  And for each (g, n) in a box (and around every number the loaders compare
with) constants are propagated through load: the triangulation, curves and arcs found are compared with the documented ones."""
import ast
from dom import *
from repo import AnalysisError
from model import *
from interp import Dead
from check_c05 import Words
from report import parallel

# ---- curves on a triangulation, by their weights
def corners(tris): return {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
def trace(tris, w):
    """The components of the multicurve with these weights, as the labels they cross, or None when there is none."""
    C = corners(tris)
    wt = lambda l: w[max(l, ~l)]
    for t in tris:
        a, b, c = map(wt, t)
        if (a + b + c) % 2 or a > b + c or b > a + c or c > a + b: return None
    def step(l, p):                                    # the p-th point of side l, entering the triangle on its left
        _, m, n = C[l]
        a, b, c = wt(l), wt(m), wt(n)
        out, q = (n, c - 1 - p) if p < (a + c - b) // 2 else (m, a - 1 - p)
        return ~out, wt(out) - 1 - q
    seen, comps = set(), []
    for i in range(len(w)):
        for p in range(w[i]):
            if (i, p) in seen: continue
            seq, cur = [], (i, p)
            while True:
                l, q = cur
                seen.add((l, q) if l >= 0 else (~l, wt(l) - 1 - q))
                seq.append(l)
                cur = step(*cur)
                if cur == (i, p): break
            comps.append(seq)
    return comps
def weights(seq, z):
    w = [0] * z
    for l in seq: w[max(l, ~l)] += 1
    return w
def pairing(tris, s1, s2):
    """The algebraic intersection number of two closed curves."""
    C = corners(tris)
    A = [0] * (len(tris) * 3 // 2)
    for l in s1: A[max(l, ~l)] += 1 if l >= 0 else -1
    tot = 0
    for i, l in enumerate(s2):
        _, m, n = C[l]
        if ~s2[(i + 1) % len(s2)] == m: tot -= A[n] if n >= 0 else -A[~n]
    return tot
def connected(tris):
    own = {l: t for t in tris for l in t}
    seen, todo = set(), [tris[0]]
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t)
        todo += [own[~l] for l in t]
    return len(seen) == len(tris)

# ---- what is documented
def documented(g, n):
    """(curves, arcs, pairs of curves that meet once)."""
    if g == 0: return [], [f's_{i}' for i in range(n)], set()
    L = g - 1
    cs = [f'{c}_{i}' for c in 'ab' for i in range(g)] + [f'c_{i}' for i in range(g - 1)] + [f'd_{i}' for i in range(1, g)] + [f'p_{i}' for i in range(1, n)]
    meet = [(f'a_{i}', f'b_{i}') for i in range(g)] + [(f'b_{i}', f'c_{i}') for i in range(g - 1)] + [(f'b_{i + 1}', f'c_{i}') for i in range(g - 1)]
    meet += [(f'b_{i}', f'd_{i}') for i in range(1, g)] + [(f'b_{L}', f'p_{i}') for i in range(1, n)]
    return cs, [f's_{i}' for i in range(n)] if n > 1 else [], set(map(frozenset, meet))
OLD = {   # name: (g, n, curves, arcs, pairs of curves that meet once)
    'S_0_4': (0, 4, '', 'abcd', ''), 'S_1_1': (1, 1, 'ab', '', 'ab'), 'S_1_2': (1, 2, 'abc', 'x', 'ab bc'), 'S_1_2p': (1, 2, 'abc', '', 'ab bc'),
    'S_2_1': (2, 1, 'abcdef', '', 'ab bc cd ce af'), 'S_3_1': (3, 1, 'abcdefgh', '', 'ab bc cd de ef eg ch'),
    'S_4_1': (4, 1, 'abcdefghij', '', 'ab bc cd de ef fg gh gi ej'), 'S_5_1': (5, 1, 'abcdefghijkl', '', 'ab bc cd de ef fg gh hi ij ik gl')}

class Loader(Words):
    def __init__(self, repo, rep):
        super().__init__(repo, rep, 'torus')
        I = self.I
        I.unroll_forever, I.wide, I.unroll_while, I.hooks['recursion'] = True, 2000, 400, 40
        self.at = 'curver/load.py:load'
        self.real_group = I.contracts.pop('new:MappingClassGroup', None)
        self.calls = []
        I.contracts['new:MappingClassGroup'] = self.group
        for c in repo.classes:
            if not repo.is_sub(c, 'Lamination'): continue
            if 'promote' in repo.classes[c].methods: I.contracts[f'{c}.promote'] = self.promoted
        self.cuts = []
        inner = I.contracts.get('Triangulation.cut_sequence_intersections')
        def cut(I, st, f, args, kw, node):
            its = I.items(st, args[1]) if len(args) > 1 and len(args[1]) == 1 else None
            if its is not None: self.cuts.append([self.const(i) for i in its])
            return inner(I, st, f, args, kw, node) if inner else None
        I.contracts['Triangulation.cut_sequence_intersections'] = cut
    def promoted(self, I, st, f, args, kw, node):
        """Of the class its weights make it (C10)."""
        ts = [I.field_of(st, args[0], n) if len(args[0]) == 1 else None for n in ('triangulation', 'geometric')]
        ws = I.items(st, ts[1]) if ts[1] else None
        ws = [self.const(w) for w in ws] if ws is not None else [None]
        tris = I.shape_of(st, ts[0]) if ts[0] else None
        if None in ws or tris is None or len(ws) * 2 != len(tris) * 3 or min(ws) < 0: return args[0]
        c = trace(tris, ws)
        if c is None or len(c) != 1: return args[0]
        return I.call(one(Cls('Curve')), ts, {}, st, node)
    def const(self, v):
        x = self.I.sole(v) if v and len(v) == 1 else None
        return x.v if isinstance(x, K) else None
    def group(self, I, st, cls, args, kw, node):
        kw = dict(zip(('pos_mapping_classes', 'curves', 'arcs'), args)) | dict(kw)
        self.calls.append((kw, st))
        # what the group keeps of its arguments
        none = lambda: I.new(st, node, 'dict', items=[], sub='no')
        keep = lambda n: kw[n] if n in kw and not any(isinstance(x, K) for x in kw[n]) else none()
        return I.heap(st, ('group', len(self.calls)), Rec('inst', org='shared', cls='MappingClassGroup', fields={'curves': keep('curves'), 'arcs': keep('arcs')}))
    def load(self, args):
        I = self.I
        self.calls, self.cuts = [], []
        st = self.start()
        I.epoch += 1
        I.sinks.append([])
        try: v = I.call(one(Fn(self.repo.function('curver.load', 'load'), None, None, None)), list(args), {}, st, I.NODE)
        except Dead: v = None
        finally: I.last_sink = I.sinks.pop()
        return st, v
    def table(self, st, v, name):
        """{name: (triangles, weights)} for a field of the group, or None."""
        I = self.I
        d = I.field_of(st, v, name) if v and len(v) == 1 else None
        x = I.sole(d) if d and len(d) == 1 else None
        if not isinstance(x, Ref) or st.heap[x.oid].kind != 'dict' or st.heap[x.oid].items is None: return None
        out = {}
        for key, val in st.heap[x.oid].items:
            key = self.const(key) if isinstance(key, frozenset) else key.v if isinstance(key, K) else None
            tris = I.shape_of(st, I.field_of(st, val, 'triangulation')) if len(val) == 1 else None
            ws = I.items(st, I.field_of(st, val, 'geometric')) if tris else None
            ws = [self.const(w) for w in ws] if ws is not None else None
            if key is None or ws is None or None in ws: return None
            out[key] = (tris, ws, I.sole(val))
        return out
    def judge(self, what, args, g, n, curves, arcs, meet, old=None):
        rep, at = self.rep, self.at
        rep.count('surfaces')
        say = lambda d: rep.finding('surface', at, f'{what}: {d}')
        st, v = self.load(args)
        if v is None: say('it cannot be loaded'); return
        C, A = self.table(st, v, 'curves'), self.table(st, v, 'arcs')
        if C is None or A is None: rep.count('undecided'); rep.note(f'{what}: what is loaded is not known'); return
        rep.count('surfaces decided')
        if set(C) != set(curves) or set(A) != set(arcs): say('the generators have other names'); return
        shapes = {t for t, _, _ in list(C.values()) + list(A.values())}
        if len(shapes) != 1: say('its curves and arcs lie on several triangulations'); return
        tris = shapes.pop()
        z = len(tris) * 3 // 2
        if z != 6 * g + 3 * n - 6: say('the triangulation has another number of edges'); return
        if not connected(tris): say('the surface falls apart')
        vs = vertices(tris)
        if len(vs) != n: say('the surface has another number of punctures')
        for l in self.cuts:
            if None in l: continue
            rep.count('cut sequences')
            if any(not -z <= x < z for x in l): say('a curve crosses edges that do not exist')
        rep.count('curves', len(C)); rep.count('arcs', len(A))
        seqs = {}
        for name, (_, w, x) in C.items():
            if len(w) != z: say('a curve has a weight vector of another length'); continue
            c = trace(tris, w)
            if c is None or len(c) != 1: say(f'curve {name[0]} is no curve' if not old else f'curve {name} is no curve'); continue
            seqs[name] = c[0]
        where = {l: i for i, v_ in enumerate(vs) for l in v_}
        ends = {}
        for name, (_, w, x) in A.items():
            if len(w) != z or sorted(w) != [-1] + [0] * (z - 1): say('an arc is no edge of the triangulation'); continue
            e = w.index(-1)
            ends[name] = (e, {where[e], where[~e]})
            if len(ends[name][1]) != 2: say('an arc to half-twist about does not join two punctures')
        names = sorted(seqs)
        if len({tuple(C[x][1]) for x in names}) < len(names): say('two generators are the same curve')
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if len(names) > 48 and frozenset((a, b)) not in meet and abs(int(a[2:] or 0) - int(b[2:] or 0)) > 1: continue
                rep.count('pairs of curves')
                short = lambda x: x if old else x[0]
                wa, wb = C[a][1], C[b][1]
                if frozenset((a, b)) in meet:
                    if abs(pairing(tris, seqs[a], seqs[b])) != 1: say(f'curves {short(a)} and {short(b)} do not meet once as documented')
                else:
                    c = trace(tris, [x + y for x, y in zip(wa, wb)])
                    if c is None or sorted(weights(s, z) for s in c) != sorted([wa, wb]): say(f'curves {short(a)} and {short(b)} are not disjoint as documented')
        if old: return
        # half-twists: consecutive arcs share a puncture, together they go round all of them
        es = [ends[f's_{i}'][1] for i in range(n)] if all(f's_{i}' in ends for i in range(n)) and n > 1 else None
        if es:
            rep.count('chains of arcs')
            if len({e for e, _ in ends.values()}) < n: say('two half-twists are about the same arc')
            if n > 2 and any(len(es[i] & es[(i + 1) % n]) != 1 for i in range(n if g == 0 else n - 1)): say('consecutive half-twists do not share a puncture')
            if len(set().union(*es)) != n: say('some puncture is not reached by the half-twists')
            if n > 3 and any(es[i] & es[j] for i in range(n) for j in range(i + 2, n) if (i, j) != (0, n - 1)): say('half-twists that should commute share a puncture')
        if g and n > 1 and ends:
            for i in range(n):
                e = ends.get(f's_{i}', (None,))[0]
                for j in range(n):
                    c = f'p_{j}' if j else f'a_{g - 1}'
                    if e is not None and c in seqs and C[c][1][e] != (1 if i == j else 0): say('pushing a curve across the punctures passes another puncture than the half-twists swap')
    def refused(self, what, args):
        self.rep.count('refusals')
        st, v = self.load(args)
        if v is not None and not self.I.given_up: self.rep.finding('refused', self.at, f'{what}: it is not refused')
    def names(self, g, n):
        """The group made from the loaded curves and arcs: each name is the twist about its curve, its swapped case the inverse."""
        I, rep = self.I, self.rep
        at = self.where('MappingClassGroup', '__init__')
        st, v = self.load([k(g), k(n)])
        C, A = self.table(st, v, 'curves'), self.table(st, v, 'arcs')
        if not C and not A: return
        tris = next(iter((C or A).values()))[0]
        made = {}
        def twist(I, st_, f, args, kw, node):
            x = I.sole(args[0]) if len(args[0]) == 1 else None
            power = args[1] if len(args) > 1 else kw.get('power', k(1))
            key = next((n_ for n_, (_, w, r) in {**C, **A}.items() if r == x), None)
            p = self.const(power)
            if key is None or not p: return None
            l = self.letter(st_, f'{f.node.name} {key}', tris, tris)
            if p < 0: l = st_.heap[I.sole(l).oid].fields['_inverse']
            I.epoch += 1
            r = I.call(one(Cls('MappingClass')), [self.lst(st_, [l] * abs(p))], {}, st_, node)
            return r
        old = {}
        for c in self.repo.classes:
            for n_ in ('encode_twist', 'encode_halftwist'):
                if self.repo.is_sub(c, 'Lamination') and n_ in self.repo.classes[c].methods: old[f'{c}.{n_}'] = I.contracts.get(f'{c}.{n_}'); I.contracts[f'{c}.{n_}'] = twist
        mine = I.contracts.pop('new:MappingClassGroup')
        kw, st1 = self.calls[-1]
        st1 = st
        I.epoch += 1
        I.sinks.append([])
        try: G = I.call(one(Cls('MappingClassGroup')), [], {n_: kw[n_] for n_ in ('curves', 'arcs') if n_ in kw}, st1, I.NODE)
        except Dead: G = None
        finally:
            I.sinks.pop()
            I.contracts['new:MappingClassGroup'] = mine
            for q, c in old.items():
                if c is None: I.contracts.pop(q)
                else: I.contracts[q] = c
        rep.count('groups')
        if G is None: rep.finding('names', at, 'the group of a surface cannot be made'); return
        d = I.field_of(st1, G, 'mapping_classes') if len(G) == 1 else None
        x = I.sole(d) if d and len(d) == 1 else None
        its = st1.heap[x.oid].items if isinstance(x, Ref) else None
        if its is None: rep.count('undecided'); rep.note('the generators of a group are not known'); return
        got = {}
        for key, val in its: got[self.const(key) if isinstance(key, frozenset) else getattr(key, 'v', None)] = val
        want = {}
        for n_ in C: want[n_] = [(f'encode_twist {n_}', 1)]
        for n_ in A: want[n_] = [(f'encode_halftwist {n_}', 1)]
        for n_ in list(want): want[n_.swapcase()] = [(want[n_][0][0], -1)]
        if set(got) != set(want): rep.finding('names', at, 'the group has generators by other names'); return
        for n_, w in want.items():
            rep.count('generators')
            h = self.word(st1, got[n_])
            if h is None: rep.count('undecided'); continue
            rep.count('generators decided')
            if list(h) != w: rep.finding('names', at, f'a generator named in {"lower" if n_ == n_.lower() else "upper"} case is another map than the {"inverse " if w[0][1] < 0 else ""}{w[0][0].split()[0][7:]} about its curve')

# ---- the loaders with genus and puncture count symbolic
class Unknown(Exception): pass
class Lin:
    """A linear form in g, n and loop variables."""
    def __init__(self, c=0, **v): self.c, self.v = c, {a: b for a, b in v.items() if b}
    def add(self, o, m=1):
        r = Lin(self.c + m * o.c); r.v = {a: b for a in {*self.v, *o.v} if (b := self.v.get(a, 0) + m * o.v.get(a, 0))}
        return r
    def mul(self, m): return Lin(0).add(self, m)
    def put(self, var, o):
        m = self.v.get(var, 0)
        r = Lin(self.c); r.v = {a: b for a, b in self.v.items() if a != var}
        return r.add(o, m)
    def least(self, base):
        """The least value over g >= base['g'], n >= base['n'] (an entry ('is', v) when it is fixed), or None when unbounded."""
        t = self.c
        for a, b in self.v.items():
            if a not in base: raise Unknown(f'a bound for {a}')
            x = base[a]
            if isinstance(x, tuple): t += b * x[1]
            elif b < 0: return None
            else: t += b * x
        return t
    def fixed(self, base):
        r = self
        for a, x in base.items():
            if isinstance(x, tuple): r = r.put(a, Lin(x[1]))
        return r
def at_least(l, base, bound=0):
    m = l.least(base)
    return m is not None and m >= bound
def assigned(body): return {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not any(isinstance(y, ast.AugAssign) and y.target is x for t in body for y in ast.walk(t))}
class Reader:
    """Reads a loader for a region of (g, n).  Lists are ('list', [segment]), a segment ([(var, lo, hi)], value)."""
    def __init__(self, repo, rep, region, what):
        self.repo, self.rep, self.base, self.what = repo, rep, dict(region), what
        self.found, self.loops, self.fresh = None, [], 0
    def bounds(self, l, loops):
        """The least value of l over the loops and the region."""
        for var, lo, hi in reversed(loops): l = l.put(var, lo) if l.v.get(var, 0) > 0 else l.put(var, hi.add(Lin(-1)))
        return l.least(self.base)
    def call(self, fn, env):
        r = self.block(fn.body, env)
        return r
    def block(self, body, env):
        for s in body:
            if isinstance(s, ast.Return): return ('return', self.ev(s.value, env) if s.value is not None and self.plain(s.value) else None)
            if isinstance(s, (ast.Pass, ast.Assert)): continue
            if isinstance(s, ast.Expr):
                c = s.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and self.is_list(env.get(c.func.value.id)):
                    self.grow(env, c.func.value.id, c.args[0] if len(c.args) == 1 and c.func.attr in ('append', 'extend') else None, c.func.attr == 'append')
                else: self.seek(c, env)
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                if self.is_list(env.get(s.target.id)) and isinstance(s.op, ast.Add): self.grow(env, s.target.id, s.value, False)
                else: env.pop(s.target.id, None)
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, ast.Name):
                    try: env[t.id] = self.ev(s.value, env)
                    except Unknown: env.pop(t.id, None); self.seek(s.value, env)
                elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                    for x in t.elts: env.pop(x.id, None)
                else: self.seek(s.value, env)
                continue
            if isinstance(s, ast.If):
                b = self.test(s.test, env)
                if b is None: raise Unknown('a branch')
                r = self.block(s.body if b else s.orelse, env)
                if r is not None: return r
                continue
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                lo, hi = self.range(s.iter, env)
                self.fresh += 1
                var = f'i{self.fresh}'
                e = dict(env); e[s.target.id] = Lin(0, **{var: 1})
                self.loops.append((var, lo, hi))
                r = self.block(s.body, e)
                self.loops.pop()
                if r is not None: raise Unknown('a return within a loop')
                for a in list(env):                       # lists that grow in the loop
                    if a in e and e[a] is env[a]: continue
                    if a in e and self.is_list(env[a]) and self.is_list(e[a]) and a not in assigned(s.body) and e[a][1][:len(env[a][1])] == env[a][1]:
                        env[a] = ('list', env[a][1] + [([(var, lo, hi)] + lp, v) for lp, v in e[a][1][len(env[a][1]):]])
                    else: env.pop(a)
                for a in assigned(s.body): env.pop(a, None)
                continue
            if isinstance(s, ast.Raise): return ('raise', None)
            raise Unknown(type(s).__name__)
        return None
    def is_list(self, v): return isinstance(v, tuple) and v[0] == 'list'
    def grow(self, env, name, e, single):
        try: v = self.ev(e, env) if e is not None else None
        except Unknown: v = None
        if single: v = None if v is None else ('list', [([], v)])
        if self.is_list(v): env[name] = ('list', env[name][1] + v[1])
        else: env.pop(name)
    def plain(self, e): return not isinstance(e, ast.Call) or True
    def test(self, e, env):
        if isinstance(e, ast.BoolOp):
            bs = [self.test(x, env) for x in e.values]
            if isinstance(e.op, ast.And): return False if False in bs else None if None in bs else True
            return True if True in bs else None if None in bs else False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            b = self.test(e.operand, env)
            return None if b is None else not b
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            try: d = self.ev(e.left, env).add(self.ev(e.comparators[0], env), -1)
            except (Unknown, AttributeError): return None
            lo, up = d.least(self.base), d.mul(-1).least(self.base)
            up = None if up is None else -up
            o = type(e.ops[0])
            def ge(b): return True if lo is not None and lo >= b else False if up is not None and up < b else None
            neg = lambda b: None if b is None else not b
            if o is ast.GtE: return ge(0)
            if o is ast.Gt: return ge(1)
            if o is ast.Lt: return neg(ge(0))
            if o is ast.LtE: return neg(ge(1))
            if o in (ast.Eq, ast.NotEq):
                b = True if lo == up == 0 else False if lo is not None and lo > 0 or up is not None and up < 0 else None
                return b if o is ast.Eq else neg(b)
        return None
    def range(self, e, env):
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and len(e.args) in (1, 2) and not e.keywords): raise Unknown('a loop')
        a = [self.num(x, env) for x in e.args]
        lo, hi = (Lin(0), a[0]) if len(a) == 1 else a
        ln = hi.add(lo, -1)
        m = self.bounds(ln, self.loops)
        if m is None or m < 0: raise Unknown('a range that may be empty')
        return lo, hi
    def num(self, e, env):
        v = self.ev(e, env)
        if not isinstance(v, Lin): raise Unknown('a number')
        return v
    def ev(self, e, env):
        if isinstance(e, ast.Constant): 
            if isinstance(e.value, int): return Lin(e.value)
            raise Unknown('a constant')
        if isinstance(e, ast.Name):
            if e.id in env: return env[e.id]
            raise Unknown(e.id)
        if isinstance(e, ast.UnaryOp):
            v = self.num(e.operand, env)
            if isinstance(e.op, ast.Invert): return Lin(-1).add(v, -1)
            if isinstance(e.op, ast.USub): return v.mul(-1)
            raise Unknown('an operation')
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(l, Lin) and isinstance(r, Lin):
                if isinstance(e.op, ast.Add): return l.add(r)
                if isinstance(e.op, ast.Sub): return l.add(r, -1)
                if isinstance(e.op, ast.Mult):
                    if not l.fixed(self.base).v: return r.mul(l.fixed(self.base).c)
                    if not r.fixed(self.base).v: return l.mul(r.fixed(self.base).c)
            if isinstance(l, tuple) and isinstance(r, tuple) and isinstance(e.op, ast.Add): return ('list', l[1] + r[1])
            if isinstance(e.op, ast.Mult):
                if isinstance(r, tuple): l, r = r, l
                if isinstance(l, tuple) and isinstance(r, Lin):
                    if not at_least(r, self.base) and (self.bounds(r, self.loops) or -1) < 0: raise Unknown('a repetition')
                    self.fresh += 1
                    return ('list', [([(f'i{self.fresh}', Lin(0), r)] + lp, v) for lp, v in l[1]])
            raise Unknown('an operation')
        if isinstance(e, (ast.List, ast.Tuple)): return ('list', [([], self.ev(x, env)) for x in e.elts])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            env, loops = dict(env), []
            for gen in e.generators:
                if gen.ifs or not isinstance(gen.target, ast.Name): raise Unknown('a comprehension')
                if isinstance(gen.iter, (ast.List, ast.Tuple)):     # over given numbers
                    if len(e.generators) > 1: raise Unknown('a comprehension')
                    out = []
                    for x in gen.iter.elts: out.append(([], self.ev(e.elt, {**env, gen.target.id: self.num(x, env)})))
                    return ('list', out)
                lo, hi = self.range(gen.iter, env)
                self.fresh += 1
                env[gen.target.id] = Lin(0, **{f'i{self.fresh}': 1})
                loops.append((f'i{self.fresh}', lo, hi))
            self.loops += loops
            try: v = self.ev(e.elt, env)
            finally: del self.loops[len(self.loops) - len(loops):]
            return ('list', [(loops, v)])
        if isinstance(e, ast.Call):
            f = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            if f in ('create_triangulation', 'from_tuple'):
                args = [self.ev(a, env) for a in e.args]
                self.labels(args[0] if len(args) == 1 else ('list', [([], a) for a in args]), e)
                self.found = True
                return ('T',)
            if isinstance(e.func, ast.Name) and e.func.id in env and env[e.func.id] == ('T',) and len(e.args) == 1: self.vector(self.ev(e.args[0], env), e); return ('lam',)
            if f in ('curve_from_cut_sequence', 'lamination_from_cut_sequence') and len(e.args) == 1: self.inside(self.ev(e.args[0], env), e); return ('lam',)
            if f in ('edge_arc', 'edge_curve') and len(e.args) == 1: self.inside(('list', [([], self.ev(e.args[0], env))]), e); return ('lam',)
            fns = [m for m in (self.repo.modules['curver.load'].names.get(f),) if m and m[0] == 'func'] if isinstance(e.func, ast.Name) else []
            if fns and len(self.loops) == 0 and not e.keywords:
                fn = fns[0][1]
                if len(fn.args.args) == len(e.args):
                    r = self.block(fn.body, dict(zip([a.arg for a in fn.args.args], [self.ev(a, env) for a in e.args])))
                    return r[1] if r and r[1] is not None else ('?',)
            for a in [*e.args, *[kw.value for kw in e.keywords]]:
                self.seek(a, env)
                if isinstance(a, ast.Name) and self.is_list(env.get(a.id)) and f not in ('list', 'tuple', 'len', 'sum', 'sorted'): env.pop(a.id)
            if f in ('list', 'tuple') and len(e.args) == 1: return self.ev(e.args[0], env)
            return ('?',)
        if isinstance(e, ast.IfExp):
            b = self.test(e.test, env)
            if b is None: raise Unknown('a choice')
            return self.ev(e.body if b else e.orelse, env)
        raise Unknown(type(e).__name__)
    def seek(self, e, env):
        """What there is to be read within something that is not understood."""
        try: self.ev(e, env)
        except Unknown: pass
    def zeta(self): return Lin(-6, g=6, n=3).fixed(self.base)
    def flat(self, v, loops=()):
        if isinstance(v, Lin): yield list(loops), v
        elif isinstance(v, tuple) and v[0] == 'list':
            for lp, x in v[1]: yield from self.flat(x, [*loops, *lp])
        else: raise Unknown('a label')
    def where(self, e): return 'curver/load.py:' + next((f.name for f in ast.walk(self.repo.modules['curver.load'].tree) if isinstance(f, ast.FunctionDef) and f.lineno <= e.lineno <= f.end_lineno), '?')
    def labels(self, v, e):
        """Each label occurs once with either orientation."""
        for want, name in ((True, 'own'), (False, 'opposite')):
            terms, dens = [], set()
            for loops, l in self.flat(v):
                lo, up = self.bounds(l, loops), self.bounds(l.mul(-1), loops)
                if lo is not None and lo >= 0: pos = True
                elif up is not None and -up < 0: pos = False
                else: raise Unknown('the orientation of a label')
                if pos != want: continue
                if not pos: l = Lin(-1).add(l, -1)
                t = [(1, l, ())]
                for var, a, b in reversed(loops):
                    out = []
                    for s, x, d in t:
                        m = x.v.get(var, 0)
                        if not m: raise Unknown('a label that is repeated')
                        out += [(s, x.put(var, a), d + (m,)), (-s, x.put(var, b), d + (m,))]
                    t = out
                terms += t
            z = self.zeta()
            dens = {}
            for _, _, d in [*terms, (1, z, (1,))]:
                for m in set(d): dens[m] = max(dens.get(m, 0), d.count(m))
            tot = {}
            def put(s, x, d):
                ps = [(s, x.fixed(self.base))]
                for m, c in dens.items():
                    for _ in range(c - d.count(m)): ps = ps + [(-a, y.add(Lin(m))) for a, y in ps]
                for a, y in ps:
                    key = (y.c, y.v.get('g', 0), y.v.get('n', 0))
                    tot[key] = tot.get(key, 0) + a
            for s, x, d in terms: put(s, x, d)
            put(-1, Lin(0), (1,)); put(1, z, (1,))
            self.rep.count('label identities')
            if any(tot.values()): self.rep.finding('labels', self.where(e), f'{self.what}: some edge label does not occur exactly once with its {name} orientation')
    def size(self, v):
        t = Lin(0)
        for lp, x in v[1]:
            if len(lp) > 1: raise Unknown('a length')
            t = t.add(lp[0][2].add(lp[0][1], -1) if lp else Lin(1))
        return t
    def vector(self, v, e):
        if not (isinstance(v, tuple) and v[0] == 'list'): raise Unknown('a vector')
        n, z = self.size(self.unnest(v)), self.zeta()
        d = n.add(z, -1).fixed(self.base)
        self.rep.count('vectors')
        if d.c or d.v: self.rep.finding('labels', self.where(e), f'{self.what}: a weight vector has another length than the number of edges')
    def unnest(self, v):
        """[a, b] * m has m entries for each of a, b."""
        return v
    def inside(self, v, e):
        z = self.zeta()
        for loops, l in self.flat(v):
            loops = [*self.loops, *loops]
            self.rep.count('edges referred to')
            lo, up = self.bounds(l, loops), self.bounds(z.add(Lin(-1)).add(l, -1), loops)
            if lo is not None and lo >= 0 and up is not None and up >= 0: self.rep.count('edges that exist'); continue
            m = l
            self.rep.count('undecided edges')
            self.rep.note(f'{self.what}: an edge that may lie outside the triangulation')

REGIONS = [('genus 0', {'g': ('is', 0), 'n': 3})] + [(f'genus {g}, {"one puncture" if one_ else "several punctures"}', {'g': ('is', g) if g < 4 else 4, 'n': ('is', 1) if one_ else 2}) for g in (1, 2, 3, 4) for one_ in (True, False)]
def symbolic(repo, rep):
    fn = repo.function('curver.load', 'load')
    for what, region in REGIONS:
        what = what.replace('genus 4', 'genus 4 or more')
        rd = Reader(repo, rep, region, what)
        env = {'g': Lin(0, g=1), 'n': Lin(0, n=1)}
        rep.count('regions')
        try:
            body = next((s for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and [getattr(t, 'id', None) for t in s.targets[0].elts] and isinstance(s.value, ast.Name)), None)
            if body is None: raise Unknown('where a pair is taken apart')
            block = next(b for s in ast.walk(fn) for b in (getattr(s, 'body', None), getattr(s, 'orelse', None)) if isinstance(b, list) and body in b)
            gn = [t.id for t in body.targets[0].elts]
            rd.block(block[block.index(body) + 1:], {gn[0]: Lin(0, g=1), gn[1]: Lin(0, n=1)})
            if not rd.found: raise Unknown('the triangulation')
            rep.count('regions read')
        except (Unknown, StopIteration, IndexError) as e: rep.count('undecided regions'); rep.note(f'{what}: {e} is not understood with g and n symbolic')

def thresholds(repo):
    """Numbers at which the loaders may change their ways."""
    out = set()
    add = lambda c: out.add(c.value) if isinstance(c, ast.Constant) and type(c.value) is int else None
    for x in ast.walk(repo.modules['curver.load'].tree):
        if isinstance(x, ast.Compare): [add(c) for y in [x.left, *x.comparators] for c in ast.walk(y)]
        elif isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.FloorDiv)): add(x.right)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('min', 'max'): [add(c) for y in x.args for c in ast.walk(y)]
    return {c for c in out if 0 <= c <= 60}
def pairs(repo, tier):
    G, N = (8, 10) if tier == 'quick' else (11, 16)
    out = {(0, n) for n in range(3, N + 6)} | {(g, n) for g in range(1, G + 1) for n in range(1, N + 1)}
    for c in thresholds(repo):
        for d in (-1, 0, 1, 2):
            v = c + d
            if v >= 3: out.add((0, v))
            if v >= 1: out |= {(g, v) for g in (1, 2, 3, 5)} | {(v, n) for n in (1, 3)}
    return sorted(out)
def say(g, n): return f'genus {g if g < 4 else "4 or more"}, {"one puncture" if n == 1 else "several punctures"}'

def one_job(repo, tier, job):
    from report import Report
    rep = Report('C14', tier)
    err = None
    try:
        if job == 'symbolic': symbolic(repo, rep)
        else:
            L = Loader(repo, rep)
            if job == 'old':
                for name, (g, n, cs, as_, meet) in OLD.items(): L.judge(f'surface {name}', [one(K('str', name))], g, n, list(cs), list(as_), {frozenset(p) for p in meet.split()}, old=name)
                for m in (3, 4, 5, 9, 10, 11, 20) if tier == 'quick' else (*range(3, 24), 99, 100, 101):
                    cs, as_, meet = documented(0, m)
                    L.judge('a braid group of the sphere', [one(K('str', f'SB_{m}'))], 0, m, cs, as_, meet)
                for what, args in (('no punctures', [k(2), k(0)]), ('a sphere with two punctures', [k(0), k(2)]), ('a sphere with one puncture', [k(0), k(1)]), ('a negative genus', [k(-1), k(9)]), ('a negative number of punctures', [k(3), k(-1)]),
                                   ('a torus without punctures', [k(1), k(0)]), ('an unknown name', [one(K('str', 'S_9_9'))]), ('an empty name', [one(K('str', ''))]), ('a braid group without strands', [one(K('str', 'SB_0'))]), ('a braid group of two strands', [one(K('str', 'SB_2'))]),
                                   ('nothing', []), ('three numbers', [k(1), k(1), k(1)]), ('a name and a number', [one(K('str', 'S_1_1')), k(1)]), ('a single number', [k(3)]), ('a half', [one(K('float', 1.5)), k(1)])): L.refused(what, args)
            elif job == 'names':
                for g, n in ((0, 5), (1, 1), (1, 3), (2, 2), (3, 1)): L.names(g, n)
            else:
                for g, n in job:
                    cs, as_, meet = documented(g, n)
                    try: L.judge(say(g, n), [k(g), k(n)], g, n, cs, as_, meet)
                    except AnalysisError: rep.count('undecided'); rep.note(f'{say(g, n)}: not read')
    except AnalysisError as e: err = str(e)
    except Exception as e: rep.count('parts not analysed'); rep.note(f'{job}: not analysed ({type(e).__name__}: {e})')
    return dict(findings=rep.findings, counts=rep.counts, notes=rep.notes, err=err)

def check(repo, rep):
    rep.rule('label identity: over all triangles the labels with g and n symbolic have the generating function (x^zeta - 1)/(x - 1), for either orientation; weight vectors have zeta entries; edges referred to lie in 0..zeta-1')
    rep.rule('constant propagation through load for every (g, n) of a box and around every number compared with: names, edge and puncture counts, each curve a single closed curve, curves meeting exactly as documented, half-twists along a chain through all punctures')
    rep.rule('old names refer to generators that exist and meet as documented, other requests are refused; group generators are the twists about the curves named')
    ps = pairs(repo, rep.tier)
    ps.sort(key=lambda p: -(p[0] + p[1]))
    jobs = ['symbolic', 'old', 'names'] + [ps[i::12] for i in range(12)]
    rs = parallel(lambda j: one_job(repo, rep.tier, j), jobs)
    for job, r in zip(jobs, rs):
        if r['err']: raise AnalysisError(r['err'])
        for f in r['findings']: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for c, n in r['counts'].items(): rep.count(c, n)
        for n in r['notes'][:6]: rep.note(n)
    rep.need('surfaces', 40); rep.need('refusals', 12)
