"""C17: sums, multiples and parts of laminations count every summand as often as it is given.

The operations are interpreted abstractly on triangulations given by their gluing pattern and on laminations whose
weights are symbols; the linear form of every weight of the result is compared with the one the parts add up to."""
from dom import *
import terms as T
from model import *
from api import INT5, CURVES, ARCS, COMP
from repo import AnalysisError
from fractions import Fraction as Q

class Sums(Model):
    def __init__(self, repo, **kw):
        super().__init__(repo, gated=True, budget=20000000, **kw)
        for q in ('Triangulation.sum', 'Triangulation.disjoint_sum', 'Triangulation.lamination', 'Triangulation.__call__', 'Triangulation.empty_lamination', 'Lamination.__call__', 'Lamination.non_peripheral', 'Lamination.peripheral', 'IntegralLamination.skeleton',
            'IntegralLamination.multiarc', 'IntegralLamination.multicurve', 'IntegralLamination.boundary', 'IntegralLamination.num_components', 'IntegralLamination.intersection'): self.contracts.pop(q, None)
        for q in list(self.contracts):
            c, _, n = q.partition('.')
            if (c in repo.classes and (repo.is_sub(c, 'Lamination') or c == 'HomologyClass')) and n in ('__add__', '__radd__', '__mul__', '__rmul__', '__neg__', '__sub__', '__iter__', '__bool__', '__eq__'): self.contracts.pop(q)
        self.contracts['Lamination.promote'] = lambda I, st, f, a, kw, n: a[0]
        self.contracts['Lamination.is_integral'] = lambda I, st, f, a, kw, n: k(not any(self.lam_class(st, x) == 'Lamination' for x in a[0]))
        self.contracts['Lamination.is_empty'] = lambda I, st, f, a, kw, n: (lambda t: None if t is None else k(not t))(self.full(st, a[0]))
        self.hooks['inst_truth'] = lambda I, x, st: self.full(st, one(x)) if self.is_lam(st, x) else True if st.heap[x.oid].cls in ('Triangulation', 'Triangle') else None
        self.contracts['utilities.maximin'] = self.maximin
    def maximin(self, I, st, f, args, kw, node):
        """The greatest of the least."""
        mins = []
        for a in args:
            if isinstance(a, tuple): return None
            it = self.items_of(a, st, node)
            if it[0] != 'items' or not it[1]: return None
            mins.append(T.tmin([self.term(x) for x in it[1]]))
        t = T.tmax(mins)
        return None if t is None else num('int', t=t)
    def full(self, st, v):
        """Laminations whose weights are symbols are not empty."""
        ws = self.weights(st, v)
        return None if ws is None else any(w != T.const(0) for w in ws)
    def lam_class(self, st, x): return st.heap[x.oid].cls if isinstance(x, Ref) else None
    def is_lam(self, st, x): return isinstance(x, Ref) and x.oid in st.heap and st.heap[x.oid].kind == 'inst' and self.repo.is_sub(st.heap[x.oid].cls, 'Lamination')
    def weights(self, st, v, attr='geometric'):
        g = self.field_of(st, v, attr) if v else None
        its = self.items(st, g) if g is not None else None
        if its is None: return None
        out = [self.term(i) for i in its]
        return None if None in out else out
    def inst_eq(self, I, x, y, st):
        """Laminations with different symbolic weights are different."""
        if self.is_lam(st, x) and self.is_lam(st, y):
            if x == y: return True
            a, b = self.weights(st, one(x)), self.weights(st, one(y))
            if a is None or b is None: return None
            t = self.eq_vals(st.heap[x.oid].fields['triangulation'], st.heap[y.oid].fields['triangulation'], st)
            return False if t is False else None if t is None else a == b
        return super().inst_eq(I, x, y, st)

def total(parts, z):
    """The weights of a sum of multiples."""
    out = [T.const(0)] * z
    for ws, m in parts: out = [T.add(o, T.scale(w, m)) for o, w in zip(out, ws)]
    return out

def differ(a, b):
    """Whether two piecewise-linear forms differ somewhere."""
    if a == b: return False
    try:
        if 'fdiv' in repr(a) + repr(b): a, b = T.unfloor(a), T.unfloor(b)
        if T.separated(a, b, T.base_symbols(a) | T.base_symbols(b)): return True
        if T.size(a) + T.size(b) > 3000: return False
        return bool(T.Cells(T.base_symbols(a) | T.base_symbols(b)).differ([(a, b)]))
    except T.Cannot: return False

class Check:
    def __init__(self, repo, rep, name):
        self.repo, self.rep, self.name, self.tris = repo, rep, name, SHAPES[name]
        self.z = len(self.tris) * 3 // 2
    def where(self, cls, name):
        own = self.repo.find_method(cls, name)
        return (self.repo.where(own[1]), own[1].lineno) if own else None
    def part(self, I, st, c, j):
        """A lamination of class c with its own weights: (value, weights)."""
        if c == 'empty': v = I.lamination(st, self.tris, ('c17', 'e', j, self.name), 'IntegralLamination', vals=[k(0)] * self.z)
        else: v = I.lamination(st, self.tris, ('c17', c, j, self.name), 'Lamination' if c == 'fraction' else c, kind='frac' if c == 'fraction' else 'int')
        return v, I.weights(st, v)
    def judge(self, I, st, v, want, what, at, attr='geometric'):
        self.rep.count('cases')
        got = I.weights(st, v, attr) if v else None
        if v is None:
            self.rep.count('decided')
            self.rep.finding('sum', at[0], f'{what} ({self.name}) never returns', at[1]); return
        if got is None: self.rep.count('undecided'); self.rep.note(f'{what} ({self.name}) is undecided'); return
        self.rep.count('decided')
        if len(got) != len(want): self.rep.finding('sum', at[0], f'{what} ({self.name}) has {len(got)} weights for {len(want)} edges', at[1]); return
        if any(differ(a, b) for a, b in zip(got, want)): self.rep.finding('sum', at[0], f'{what} ({self.name}) is not the sum of the parts', at[1])
    def number(self, I, st, v, want, what, at):
        self.rep.count('cases')
        if v is None:
            self.rep.count('decided')
            self.rep.finding('sum', at[0], f'{what} ({self.name}) never returns', at[1]); return
        t = I.term(v)
        if t is None: self.rep.count('undecided'); self.rep.note(f'{what} ({self.name}) is undecided'); return
        self.rep.count('decided')
        if differ(t, want): self.rep.finding('sum', at[0], f'{what} ({self.name}) is not the sum of the parts', at[1])
    # ---- all at once
    def sums(self):
        C, A, M, I_, F, Z = 'Curve', 'Arc', 'MultiCurve', 'IntegralLamination', 'fraction', 'empty'
        cases = [[], [(C, 0)], [(Z, 0)], [(C, 0), (C, 0)], [(C, 0), (C, 1)], [(C, 0), (C, 0, 'copy')], [(C, 0), (C, 1), (C, 0)], [(C, 0), (A, 1), (C, 0), (A, 1), (A, 1)], [(Z, 0), (A, 0), (Z, 0), (A, 0)],
            [(M, 0), (I_, 1)], [(I_, 1), (M, 0), (A, 2)], [(F, 0)], [(F, 0), (F, 0)], [(F, 0), (C, 1), (F, 0)], [(A, 0), (A, 0), (A, 0, 'copy')], [(I_, 0), (I_, 0)]]
        dicts = [[(C, 0, 1)], [(C, 0, 2)], [(C, 0, 0)], [(C, 0, 2), (C, 1, 3)], [(A, 0, 1), (C, 1, 0)], [(A, 0, 0), (C, 1, 5)], [(M, 0, 2), (A, 1, 7), (I_, 2, 1)], [(F, 0, 2)], [(F, 0, 2), (C, 1, 3)], [(F, 0, 0), (C, 1, 3)], [(Z, 0, 3), (C, 0, 2)], []]
        for op in ('sum', 'disjoint_sum'):
            at = self.where('Triangulation', op)
            if at is None: continue
            I = Sums(self.repo)
            for case in cases:
                for kind in ('list', 'tuple', 'iter', 'set', 'Counter'):
                    if kind == 'set' and len(set(case)) != len(case) or kind == 'set' and any(len(c) > 2 for c in case): continue
                    st, vals, parts, made = State(), [], [], {}
                    for c in case:
                        if c not in made: made[c] = self.part(I, st, c[0], c[1]) if len(c) == 2 else self.copy(I, st, made[c[:2]])
                        vals.append(made[c][0]); parts.append((made[c][1], 1))
                    I.epoch += 1
                    if kind == 'Counter':
                        if any(len(c) > 2 for c in case): continue
                        arg = I.heap(st, ('c17', 'arg', self.name, op, kind, len(case), str(case)), Rec('dict', tuple((made[c][0], k(case.count(c))) for c in dict.fromkeys(case)), BOT, BOT, bool(case), 'an argument', aux=('counter',)))
                    else: arg = I.heap(st, ('c17', 'arg', self.name, op, kind, str(case)), Rec(kind, tuple(vals), BOT, BOT, bool(vals), 'an argument'))
                    t = I.triangulation(st, self.tris)
                    what = f'{op} of the {dict(iter="iterator").get(kind, kind)} {self.show(case)}'
                    self.judge(I, st, I.invoke(st, t, op, [arg]), total(parts, self.z), what, at)
            for case in dicts:
                st, its, parts = State(), [], []
                for c, j, m in case:
                    v, w = self.part(I, st, c, j)
                    its.append((v, k(m))); parts.append((w, m))
                arg = I.heap(st, ('c17', 'darg', self.name, op, str(case)), Rec('dict', tuple(its), BOT, BOT, bool(its), 'an argument'))
                self.judge(I, st, I.invoke(st, I.triangulation(st, self.tris), op, [arg]), total(parts, self.z), f'{op} of the dictionary {self.show(case)}', at)
            # a multiplicity that can be any number
            for c in ('Curve', 'Arc', 'IntegralLamination'):
                st = State()
                vals = [(-1 if c == 'Arc' and i == 0 else 2 + i) for i in range(self.z)]
                v = I.lamination(st, self.tris, ('c17', 'const', c, self.name), c, vals=[k(x) for x in vals])
                m = T.sym(('m', 0))
                arg = I.heap(st, ('c17', 'marg', self.name, op, c), Rec('dict', ((v, num('int', 2, t=m)),), BOT, BOT, True, 'an argument'))
                self.judge(I, st, I.invoke(st, I.triangulation(st, self.tris), op, [arg]), [T.scale(m, x) for x in vals], f'{op} of any number of copies of one {c}', at)
    def copy(self, I, st, made):
        """Another object equal to the given one."""
        r = st.heap[I.sole(made[0]).oid]
        ls = I.heap(st, ('c17', 'cl', self.name, r.cls, repr(made[1])), Rec('list', st.heap[I.sole(r.fields['geometric']).oid].items, BOT, BOT, True, 'an argument'))
        return I.heap(st, ('c17', 'cp', self.name, r.cls, repr(made[1])), Rec('inst', org='an argument', cls=r.cls, fields=dict(r.fields, geometric=ls))), made[1]
    def show(self, case):
        if not case: return 'of nothing'
        return '[' + ', '.join(f'{c[2]} x {c[0]} {c[1]}' if len(c) == 3 and c[2] != 'copy' else f'{c[0]} {c[1]}' + (' again' if len(c) == 3 else '') for c in case) + ']'
    # ---- one after another, and multiples
    def operators(self):
        at = self.where('Lamination', '__add__')
        I = Sums(self.repo)
        KS = ('Curve', 'Arc', 'MultiCurve', 'IntegralLamination', 'fraction', 'empty')
        import ast
        add = lambda st, l, r: self.binop(I, st, l, r, ast.Add())
        for a in KS:
            for b in KS:
                st = State()
                x, wx = self.part(I, st, a, 0); y, wy = self.part(I, st, b, 1)
                v = add(st, x, y)
                self.judge(I, st, v, total([(wx, 1), (wy, 1)], self.z), f'the sum of {a} and {b}', at)
                if v:
                    u = add(st, v, x)
                    self.judge(I, st, u, total([(wx, 2), (wy, 1)], self.z), f'the sum of {a}, {b} and the first again', at)
            st = State()
            x, wx = self.part(I, st, a, 0)
            self.judge(I, st, add(st, x, x), total([(wx, 2)], self.z), f'the sum of {a} with itself', at)
        for c in KS:
            cls = {'fraction': 'Lamination', 'empty': 'IntegralLamination'}.get(c, c)
            at = self.where(cls, '__mul__')
            for m in (0, 1, 2, 3, 4, 6, 7, 9, 12):
                for side in ('left', 'right'):
                    st = State()
                    x, wx = self.part(I, st, c, 0)
                    mv = k(m) if isinstance(m, int) else num('frac', m, m, T.const(m))
                    v = self.binop(I, st, *((mv, x) if side == 'left' else (x, mv)), ast.Mult())
                    self.judge(I, st, v, [T.scale(w, m) for w in wx], f'{m} times {c}, the number on the {side},', at)
            if c not in ('fraction', 'empty'):
                st = State()
                vals = [(-1 if c == 'Arc' and i == 0 else 2 + i) for i in range(self.z)]
                x = I.lamination(st, self.tris, ('c17', 'constm', c, self.name), c, vals=[k(w) for w in vals])
                m = T.sym(('m', 0))
                self.judge(I, st, self.binop(I, st, num('int', 2, t=m), x, ast.Mult()), [T.scale(m, w) for w in vals], f'any multiple of {c}', at)
    def binop(self, I, st, l, r, op):
        """l op r through the operator methods of the classes."""
        from interp import Dead
        I.epoch += 1
        I.sinks.append([])
        try: return I.binop(op, l, r, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    # ---- homology classes
    def homology(self):
        import ast
        I = Sums(self.repo)
        at = self.where('HomologyClass', '__add__')
        if at is None: return
        def mk(st, n): 
            v = I.homology(st, self.tris, ('c17h', n, self.name))
            return v, I.weights(st, v, 'algebraic')
        J = lambda st, v, w, what, at: self.judge(I, st, v, w, what, at, 'algebraic')
        st = State()
        (x, wx), (y, wy), (z, wz) = mk(st, 0), mk(st, 1), mk(st, 2)
        v = self.binop(I, st, x, y, ast.Add())
        J(st, v, total([(wx, 1), (wy, 1)], self.z), 'the sum of two homology classes', at)
        if v: J(st, self.binop(I, st, v, z, ast.Add()), total([(wx, 1), (wy, 1), (wz, 1)], self.z), 'the sum of three homology classes', at)
        J(st, self.binop(I, st, x, x, ast.Add()), total([(wx, 2)], self.z), 'the sum of a homology class with itself', at)
        at2 = self.where('HomologyClass', '__sub__')
        if at2:
            J(st, self.binop(I, st, x, y, ast.Sub()), total([(wx, 1), (wy, -1)], self.z), 'the difference of two homology classes', at2)
            J(st, self.binop(I, st, x, x, ast.Sub()), total([(wx, 0)], self.z), 'the difference of a homology class with itself', at2)
        at2 = self.where('HomologyClass', '__neg__')
        if at2: J(st, I.invoke(st, x, '__neg__'), total([(wx, -1)], self.z), 'the negative of a homology class', at2)
        at2 = self.where('HomologyClass', '__radd__')
        if at2: J(st, self.binop(I, st, k(0), x, ast.Add()), wx, 'zero and a homology class', at2)
        if at: J(st, self.binop(I, st, x, k(0), ast.Add()), wx, 'a homology class and zero', at)
    # ---- parts
    def parts(self):
        comps = [(), (('Curve', 1),), (('Arc', 1),), (('Curve', 3),), (('Arc', 2),), (('Curve', 1), ('Curve', 2)), (('Arc', 2), ('Arc', 1)), (('Arc', 1), ('Curve', 1)), (('Arc', 2), ('Curve', 3)), (('Curve', 1), ('Arc', 3), ('Curve', 5), ('Arc', 1))]
        for cls in INT5:
            for case in comps:
                if cls in CURVES and any(c == 'Arc' for c, m in case) or cls in ARCS and any(c == 'Curve' for c, m in case) or cls in COMP and case != ((cls, 1),) or cls != 'IntegralLamination' and not case: continue
                self.split(cls, case)
    def split(self, cls, case):
        name = ', '.join(f'{m} x {c}' for c, m in case) or 'none'
        def fresh():
            I, st = Sums(self.repo), State()
            ps = []
            for j, (c, m) in enumerate(case):
                v, w = self.part(I, st, c, j)
                ps.append((c, m, v, w))
            if cls in COMP: recv, wr = ps[0][2], ps[0][3]
            else:
                wr = total([(w, m) for c, m, v, w in ps], self.z)
                recv = I.lamination(st, self.tris, ('c17', 'whole', cls, self.name, name), cls, vals=[num('int', t=t) if t != T.const(0) else k(0) for t in wr])
            def components(I, st, f, a, kw, n):
                if not (len(a[0]) == 1 and next(iter(a[0])) in recv): return None
                return I.alloc(st, n, Rec('dict', tuple((v, k(m)) for c, m, v, w in ps), BOT, BOT, bool(ps), 'remembered'), ('c17c',))
            for q in ('IntegralLamination.components', 'Curve.components', 'Arc.components'):
                if q.split('.')[0] in self.repo.classes: I.contracts[q] = components
            return I, st, ps, recv, wr
        at = self.where(cls, 'multiarc')
        for q, ok in (('multiarc', ARCS), ('multicurve', CURVES)):
            at = self.where(cls, q)
            if at is None: continue
            I, st, ps, recv, wr = fresh()
            self.judge(I, st, I.invoke(st, recv, q), total([(w, m) for c, m, v, w in ps if c in ok], self.z), f'{q} of a {cls} with components {name}', at)
        at = self.where(cls, 'skeleton')
        if at:
            I, st, ps, recv, wr = fresh()
            self.judge(I, st, I.invoke(st, recv, 'skeleton'), total([(w, 1) for c, m, v, w in ps], self.z), f'the skeleton of a {cls} with components {name}', at)
        at = self.where(cls, 'num_components')
        if at:
            I, st, ps, recv, wr = fresh()
            self.number(I, st, I.invoke(st, recv, 'num_components'), T.const(sum(m for c, m in case)), f'the number of components of a {cls} with components {name}', at)
        # the peripheral part, and the rest
        at = self.where(cls, 'peripheral')
        if at and cls not in COMP:
            I, st, ps, recv, wr = fresh()
            vx = I.triangulation(st, self.tris)
            vs = I.items(st, I.field_of(st, vx, 'vertices'))
            peri = [(v, m, w) for c, m, v, w in ps][:len(vs)]
            def pc(I, st, f, a, kw, n):
                return I.alloc(st, n, Rec('dict', tuple((v, I.new(st, n, 'tuple', items=[k(m), vs[i]], sub=('c17t', i))) for i, (v, m, w) in enumerate(peri)), BOT, BOT, bool(peri), 'remembered'), ('c17p',))
            I.contracts['Lamination.peripheral_components'] = pc
            if all(c == 'Curve' for c, m in case):
                self.judge(I, st, I.invoke(st, recv, 'peripheral'), total([(w, m) for v, m, w in peri], self.z), f'the peripheral part of a {cls} with peripheral components {name}', at)
        at = self.where(cls, 'non_peripheral')
        if at:
            for promote in (True, False):
                I, st, ps, recv, wr = fresh()
                one_ = I.lamination(st, self.tris, ('c17', 'peri1', cls, self.name, name), 'Curve')
                p = I.lamination(st, self.tris, ('c17', 'peri', cls, self.name, name), 'MultiCurve', vals=[num('int', t=T.scale(w, 2)) for w in I.weights(st, one_)])
                for q in ('IntegralLamination', 'Curve', 'Arc'):
                    if f'{q}.components' in I.contracts: I.contracts[f'{q}.components'] = (lambda old, one_=one_, p=p: lambda I, st, f, a, kw, n: I.alloc(st, n, Rec('dict', ((one_, k(2)),), BOT, BOT, True, 'remembered'), ('c17c2',)) if a[0] == p else old(I, st, f, a, kw, n))(I.contracts[f'{q}.components'])
                for c in self.repo.classes:
                    if self.repo.is_sub(c, 'Lamination') and 'peripheral' in self.repo.classes[c].methods: I.contracts[f'{c}.peripheral'] = lambda I, st, f, a, kw, n: p
                if cls in COMP: continue
                self.judge(I, st, I.invoke(st, recv, 'non_peripheral', [k(promote)]), total([(wr, 1), (I.weights(st, p), -1)], self.z), f'what is not peripheral in a {cls} with components {name}', at)
    def boundary(self):
        at = self.where('MultiCurve', 'boundary')
        if at and self.repo.find_method('MultiCurve', 'boundary')[0] in CURVES:
            for c in CURVES:
                I, st = Sums(self.repo), State()
                v, w = self.part(I, st, c, 0)
                self.judge(I, st, I.invoke(st, v, 'boundary'), [T.scale(x, 2) for x in w], f'the boundary of a {c}', self.where(c, 'boundary'))
        at = self.where('IntegralLamination', 'boundary')
        if at is None: return
        I, st = Sums(self.repo), State()
        v, w = self.part(I, st, 'IntegralLamination', 0)
        bs = {}
        for n, c in (('a', 'MultiArc'), ('c', 'MultiCurve')):
            bs[n] = self.part(I, st, c, 1), self.part(I, st, 'MultiCurve', 2 if n == 'a' else 3)
        I.contracts['IntegralLamination.multiarc'] = lambda I, st, f, a, kw, n: bs['a'][0][0]
        I.contracts['IntegralLamination.multicurve'] = lambda I, st, f, a, kw, n: bs['c'][0][0]
        I.contracts['Lamination.is_empty'] = lambda I, st, f, a, kw, n: FALSE
        for c in ('MultiArc', 'MultiCurve'):
            if 'boundary' in self.repo.classes[c].methods: I.contracts[f'{c}.boundary'] = (lambda n: lambda I, st, f, a, kw, nd: bs[n][1][0])('a' if c == 'MultiArc' else 'c')
        r = I.invoke(st, v, 'boundary')
        self.judge(I, st, r, total([(bs['a'][1][1], 1), (bs['c'][1][1], 1)], self.z), 'the boundary of a mixed lamination', at)
        bs['c'] = bs['c'][0], self.copy(I, st, bs['a'][1])
        r = I.invoke(st, v, 'boundary')
        self.judge(I, st, r, total([(bs['a'][1][1], 2)], self.z), 'the boundary of a mixed lamination whose arcs and curves have the same boundary', at)

    # ---- intersection numbers
    def intersections(self):
        at = self.where('IntegralLamination', 'intersection')
        if at is None: return
        P = lambda i, m: ('p', i, m)
        cases = [(), (('Arc', 0, 1),), (('Arc', 1, 3),), (('peripheral', 0, 1),), (('peripheral', 0, 4),), (('Arc', 0, 2), ('Arc', 1, 5)), (('Arc', 0, 1), ('peripheral', 0, 2))]
        if self.name == 'torus': cases += [(('Curve', 0, 1),), (('Curve', 1, 3),), (('Curve', 2, 2), ('peripheral', 0, 1)), (('Arc', 1, 2), ('Curve', 1, 3))]
        single = {}
        for case in cases:
            for others in ((0,), (0, 1), (0, 0), (1, 0, 1), ()):
                if len(case) > 1 and len(others) > 2: continue
                v, I, st = self.meets(case, others)
                self.rep.count('cases')
                what = f'the intersection number of {" and ".join(f"{m} x {c} {i}" for c, i, m in case) or "nothing"} with {len(others)} laminations ({", ".join(map(str, others))})'
                if v is None: self.rep.count('decided'); self.rep.finding('sum', at[0], f'{what} ({self.name}) never returns', at[1]); continue
                t = I.term(v)
                if t is None: self.rep.count('undecided'); self.rep.note(f'{what} ({self.name}) is undecided'); continue
                want = T.const(0)
                for c, i, m in case:
                    for o in others:
                        if (c, i, o) not in single:
                            if c == 'Arc': single[c, i, o] = T.tmax([T.sym((('c17i', o, self.name), i)), T.const(0)])
                            else:
                                v1, I1, st1 = self.meets(((c, i, 1),), (o,))
                                single[c, i, o] = I1.term(v1) if v1 else None
                        if single[c, i, o] is None: want = None; break
                        want = T.add(want, T.scale(single[c, i, o], m))
                    if want is None: break
                if want is None: self.rep.count('undecided'); continue
                self.rep.count('decided')
                if differ(t, want): self.rep.finding('sum', at[0], f'{what} ({self.name}) is not the sum of the parts', at[1])
    def meets(self, case, others):
        I, st = Sums(self.repo), State()
        for q in ('Lamination.left_weight', 'Lamination.right_weight', 'Lamination.dual_weight'): I.contracts.pop(q, None)
        t = I.triangulation(st, self.tris)
        me = I.lamination(st, self.tris, ('c17i', 'self', self.name))
        short = I.lamination(st, self.tris, ('c17i', 'short', self.name))
        vs = I.items(st, I.field_of(st, t, 'vertices'))
        conj = I.heap(st, ('c17i', 'conj', self.name), Rec('inst', org='an argument', cls='Mapping', fields={'source_triangulation': t, 'target_triangulation': t, 'sequence': I.lst(st, ('c17i', 'cs', self.name), [])}))
        I.contracts['IntegralLamination.shorten'] = lambda I, st, f, a, kw, n: I.new(st, n, 'tuple', items=[short, conj], sub=('c17s',))
        for q in ('Encoding.__call__', 'Mapping.__call__'): I.contracts[q] = lambda I, st, f, a, kw, n: a[1]
        def parts(which):
            def f(I, st, f_, a, kw, n):
                its = []
                for j, (c, i, m) in enumerate(case):
                    if (c == 'peripheral') != which: continue
                    v = I.lamination(st, self.tris, ('c17i', 'part', c, i, self.name), 'Curve' if c == 'peripheral' else c)
                    its.append((v, I.new(st, n, 'tuple', items=[k(m), vs[i] if which else E(i)], sub=('c17it', which, j))))
                return I.alloc(st, n, Rec('dict', tuple(its), BOT, BOT, bool(its), 'remembered'), ('c17ip', which))
            return f
        for c in self.repo.classes:
            if not self.repo.is_sub(c, 'Lamination'): continue
            for q, which in (('peripheral_components', True), ('parallel_components', False)):
                if q in self.repo.classes[c].methods: I.contracts[f'{c}.{q}'] = parts(which)
        args = [I.lamination(st, self.tris, ('c17i', o, self.name)) for o in others]
        return I.invoke(st, me, 'intersection', args), I, st

def one_shape(a):
    repo, rep, name = a
    c = Check(repo, rep, name)
    from report import part
    for f in (c.sums, c.operators, c.homology, c.parts, c.boundary, c.intersections): part(rep, f)

def check(repo, rep):
    rep.rule('Abstract interpretation on triangulations given by their gluing pattern, weights being symbols. Rule (sum): every weight of a sum (given as a list, a tuple, an iterator, a set, a Counter or a dictionary of multiplicities, with repetitions, equal copies and empty summands), of a + b, of a multiple, of the arcs, the curves, the skeleton, the peripheral part or the rest of a lamination, of its boundary, and of sums, differences and negatives of homology classes is the linear form its parts add up to.')
    for name in ('torus', 'sphere4') if rep.tier == 'quick' else SHAPES: one_shape((repo, rep, name))
    rep.need('decided', 300)
