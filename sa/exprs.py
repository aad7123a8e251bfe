"""Expression evaluation, branching on conditions, calls."""
import ast
from dom import *
import terms as T
from fractions import Fraction
from interp import Interp, Act, Dead, exc_is, EXC_PARENTS, one_move
from repo import AnalysisError, TooMuch

BUILTINS = {'len', 'range', 'isinstance', 'hasattr', 'type', 'iter', 'next', 'map', 'filter', 'abs', 'divmod', 'bin', 'int', 'bool', 'str', 'repr', 'hash', 'print',
    'getattr', 'setattr', 'callable', 'any', 'all', 'list', 'tuple', 'dict', 'set', 'frozenset', 'zip', 'enumerate', 'reversed', 'sorted', 'min', 'max', 'sum', 'float', 'round',
    'object', 'id', 'open', 'input', 'vars', 'globals', 'locals', 'pow', 'chr', 'ord', 'format', 'issubclass', 'property', 'classmethod', 'staticmethod', 'complex', 'exec', 'eval', 'slice', 'bytes'}
TYPE_OF_BUILTIN = {'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set'}

def edge_const(x):
    """The integer an edge or a number is known to be."""
    if isinstance(x, K) and x.ty == 'int': return x.v
    if isinstance(x, EdgeA) and x.t is not None and x.t[0] == 'edge' and T.is_const(x.t[1]): return x.t[1][2]
    return None

class Exprs(Interp):
    def ev(self, e, st):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: return TOP
        v = m(e, st)
        return v if v else TOP if not isinstance(v, frozenset) else v
    def ev_quiet(self, e, st):
        x = st.copy()
        self.noreport += 1; self.sinks.append([])
        try: return self.ev(e, x)
        except Dead: return BOT
        finally: self.noreport -= 1; self.sinks.pop()

    # ---------------------------------------------------------------- truth and assumptions
    def leaves_truth(self, t):
        """Whether a choice between constants is never, or always, zero."""
        if T.is_const(t): return t[2] != 0
        if t[2] == 0 and len(t[1]) == 1 and isinstance(t[1][0][0], tuple) and t[1][0][0][0] == 'ite':
            a, b = self.leaves_truth(t[1][0][0][2]), self.leaves_truth(t[1][0][0][3])
            return a if a == b else None
        return None
    def truth_atom(self, x, st):
        if isinstance(x, K):
            if x.ty == 'NotImplementedType': return True
            return bool(x.v)
        if isinstance(x, Num):
            if T.is_const(x.t) if x.t is not None else False: return x.t[2] != 0
            if x.lo is not None and x.lo > 0 or x.hi is not None and x.hi < 0: return True
            if x.lo == 0 and x.hi == 0: return False
            return self.leaves_truth(x.t) if self.gated and x.t is not None else None
        if isinstance(x, Bool):
            if self.known is not None and x.c is not None and not isinstance(x.c, bool):
                if x.c in self.known: return True
                if T.neg(x.c) in self.known: return False
                if x.c not in self.asked: self.asked.append(x.c)
            return x.c if isinstance(x.c, bool) else None
        if isinstance(x, Ref):
            r = st.heap.get(x.oid)
            if r is None: return None
            if r.kind in ('list', 'tuple', 'dict', 'set'):
                if r.items is not None: return len(r.items) > 0
                return True if r.ne else None
            if r.kind == 'inst':
                if 'inst_truth' in self.hooks and self.hooks['inst_truth'](self, x, st) is not None: return self.hooks['inst_truth'](self, x, st)
                if self.repo.find_method(r.cls, '__len__') or self.repo.find_method(r.cls, '__bool__'): return None
                return True
            return None if r.kind == 'nd' else True
        if isinstance(x, Obj):
            if x.cls in ('Encoding', 'Mapping', 'MappingClass'): return True
            if 'obj_truth' in self.hooks: return self.hooks['obj_truth'](self, x)
            if self.repo.find_method(x.cls, '__bool__') or self.repo.find_method(x.cls, '__len__'): return None
            return True
        if isinstance(x, (EdgeA, Fn, Cls, Mod, Ext, Exc)): return True
        return None
    def truth(self, v, st):
        rs = set(self.truth_atom(x, st) for x in v)
        return rs.pop() if len(rs) == 1 else None
    def cond_of(self, v, st):
        """Condition term for the truth of v."""
        if len(v) != 1: return None
        (x,) = v
        if isinstance(x, Bool): return x.c
        t = self.truth_atom(x, st)
        if t is not None: return t
        if isinstance(x, Num) and x.t is not None: return T.neg(T.eq0(x.t))
        return None
    def assume(self, e, truth, st):
        """Restrict st to executions where e evaluates to truth; returns the condition term of e being true."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return T.neg(self.assume(e.operand, not truth, st))
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            if truth == is_and:
                cs = [self.assume(v, truth, st) for v in e.values]
                return T.conj(cs) if is_and else T.disj(cs)
            outs, cs = [], []
            cur = st.copy()
            dead = False
            for v in e.values:
                x = cur.copy()
                try: cs.append(self.assume(v, truth, x)); outs.append(x)
                except Dead: cs.append(False if is_and is False else True)
                if v is e.values[-1]: break
                try: self.assume(v, not truth, cur)
                except Dead: dead = True; break
            if not outs: raise Dead()
            if len(outs) == 1 and not dead or len(outs) == 1: self.become(st, outs[0])
            else:
                pc = st.pc
                m = self.merge(outs, (id(e), truth))
                self.become(st, m)
            if len(cs) < len(e.values): cs = cs + []
            c = T.conj(cs) if is_and else T.disj(cs)
            if len(outs) > 1 and self.gated: st.pc = st.pc + ((c if truth else T.neg(c)),)
            return c
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e, st)
            return self.assume_name(e.target, v, truth, st)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.assume_cmp(e, truth, st)
        if isinstance(e, ast.Compare):
            vals = [e.left] + e.comparators
            parts = [ast.copy_location(ast.Compare(left=a, ops=[o], comparators=[b]), e) for a, o, b in zip(vals, e.ops, vals[1:])]
            return self.assume(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), truth, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id in ('all', 'any') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and self.lookup(e.func.id, st, quiet=True) == one(Ext(e.func.id)):
                return self.assume_quant(e, truth, st)
            if e.func.id == 'isinstance' and len(e.args) == 2: return self.assume_isinstance(e, truth, st)
            if e.func.id == 'bool' and len(e.args) == 1: return self.assume(e.args[0], truth, st)
        v = self.ev(e, st)
        return self.assume_name(e, v, truth, st)
    def assume_name(self, e, v, truth, st):
        c = self.cond_of(v, st)
        keep = frozenset(x for x in v if self.truth_atom(x, st) is not (not truth))
        if not keep: raise Dead()
        if isinstance(e, ast.Name) and keep != v: self.rebind(e, keep, st)
        if isinstance(e, ast.Name):
            nk = set()
            for x in keep:
                if not truth and isinstance(x, Num) and x.kind == 'int': x = K('int', 0)
                elif isinstance(x, Ref) and truth and st.heap[x.oid].kind in ('list', 'dict', 'set', 'tuple') and st.heap[x.oid].items is None: st.heap[x.oid] = st.heap[x.oid].copy(ne=True)
                elif isinstance(x, Num) and truth and x.kind == 'int' and x.lo == 0: x = x._replace(lo=1)
                nk.add(x)
            self.rebind(e, frozenset(nk), st)
        if self.gated and c is not None and not isinstance(c, bool): st.pc = st.pc + ((c if truth else T.neg(c)),)
        return c
    def rebind(self, e, v, st):
        env = st.envs.get(self.stack[-1].aid, {})
        if isinstance(e, ast.Name) and e.id in env: env[e.id] = v
    def assume_isinstance(self, e, truth, st):
        v = self.ev(e.args[0], st)
        cs = self.class_names(self.ev(e.args[1], st), st)
        if cs is None:
            return None
        keep = set(); res = set()
        for x in v:
            r = self.isinst(x, cs, st)
            res.add(r)
            if r is None or r == truth: keep.add(x)
        if not keep: raise Dead()
        if keep != v: self.rebind(e.args[0], frozenset(keep), st)
        h = self.hooks.get('isinstance')
        return res.pop() if len(res) == 1 else None
    def class_names(self, v, st):
        out = []
        for x in v:
            if isinstance(x, Cls): out.append(x.name)
            elif isinstance(x, Ext) and x.name.startswith('namedtuple:'): out.append(x.name.split(':')[1])
            elif isinstance(x, Ext): out.append(x.name.split('.')[-1])
            elif isinstance(x, K) and x.v is None: out.append('NoneType')
            elif isinstance(x, Ref):
                r = st.heap[x.oid]
                if r.items is None: return None
                for i in r.items:
                    s = self.class_names(i, st)
                    if s is None: return None
                    out += s
            else: return None
        return out
    INTS, SEQS = ('Integral', 'int', 'Number', 'Real', 'Rational'), ('Sequence', 'Iterable', 'Collection')
    def isinst(self, x, classes, st):
        r = [self.isinst1(x, c, st) for c in classes]
        return True if True in r else None if None in r else False
    def isinst1(self, x, c, st):
        if c == 'object': return True
        if isinstance(x, Top): return None
        if isinstance(x, K):
            if c in self.INTS: return x.ty in ('int', 'bool') or (x.ty == 'float' and c in ('Number', 'Real'))
            if c == 'Sequence': return x.ty == 'str'
            return x.ty == c
        if isinstance(x, Num):
            if x.kind == 'num': return None
            if c in ('Integral', 'int'): return x.kind == 'int' or (x.kind == 'np' and c == 'Integral')
            if c in ('Fraction', 'Rational'): return x.kind == 'frac' or (c == 'Rational' and x.kind == 'int')
            if c == 'float': return x.kind == 'float'
            if c in ('RealAlgebraic',): return x.kind == 'alg'
            if c in ('Number', 'Real'): return True
            return False
        if isinstance(x, (Str,)): return c in ('str', 'Sequence', 'Iterable', 'Hashable')
        if isinstance(x, Bool): return c in ('bool', 'int', 'Integral')
        if isinstance(x, EdgeA): return c == 'Edge'
        if isinstance(x, Obj): return self.repo.is_sub(x.cls, c) if (x.cls in self.repo.classes or c in self.repo.classes) else x.cls == c
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.kind == 'inst': return self.repo.is_sub(r.cls, c)
            if r.kind == 'iter': return c in ('Iterator', 'Iterable', 'Generator')
            if r.kind == 'nd': return c == 'ndarray'
            if c in ('Sequence',): return r.kind in ('list', 'tuple')
            if c in ('Iterable', 'Collection'): return True
            if c in ('Mapping',) and c not in self.repo.classes: return r.kind == 'dict'
            if r.kind == 'set' and c in ('set', 'frozenset'): return c == ('frozenset' if r.cls == 'frozenset' else 'set')
            if r.cls and r.cls == c: return True
            return r.kind == c
        if isinstance(x, Exc): return exc_is(x.name, c) if c in EXC_PARENTS else c == x.name
        if isinstance(x, (Fn, Cls, Mod, Ext)): return False if c in self.repo.classes or c in ('int', 'str', 'list', 'dict', 'tuple', 'set', 'Integral', 'slice') else None
        return None
    def assume_cmp(self, e, truth, st):
        l, op, r = e.left, e.ops[0], e.comparators[0]
        lv, rv = self.ev(l, st), self.ev(r, st)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            want = truth == isinstance(op, (ast.Is, ast.Eq))
            # frames
            if len(lv) == 1 and len(rv) == 1:
                (a,), (b,) = lv, rv
                if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls == 'Triangulation' and isinstance(op, (ast.Eq, ast.NotEq)):
                    same = self.frames_equal(st, a.fr[0], b.fr[0])
                    if same is not None and same != want: raise Dead()
                    if same is None and want: st.union(a.fr[0], b.fr[0])
                    return same if isinstance(op, ast.Eq) else (None if same is None else not same)
            # constants / None / NotImplemented
            c = self.cmp(op, lv, rv, st, e)
            t = self.truth(c, st)
            if t is not None and t != truth: raise Dead()
            if len(rv) == 1:
                (b,) = rv
                if isinstance(b, K):
                    keep = frozenset(x for x in lv if self.eq_atoms(x, b, st) is not (not want))
                    if want: keep = frozenset((b if isinstance(x, Num) and x.kind in ('int', 'np') else x) for x in keep)
                    else:
                        keep = frozenset((x._replace(lo=1) if isinstance(x, Num) and x.kind == 'int' and b.v == 0 and x.lo == 0 else x) for x in keep)
                    if not keep: raise Dead()
                    if keep != lv: self.rebind(l, keep, st)
            return self.finish_cmp(c, truth, st)
        c = self.cmp(op, lv, rv, st, e)
        t = self.truth(c, st)
        if t is not None and t != truth: raise Dead()
        # interval refinement against constants
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and isinstance(l, ast.Name):
            b = self.const_index(rv)
            if b is not None:
                o = type(op)
                if not truth: o = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[o]
                keep = set()
                for x in lv:
                    if isinstance(x, K) and x.ty in ('int', 'float'):
                        if {ast.Lt: x.v < b, ast.LtE: x.v <= b, ast.Gt: x.v > b, ast.GtE: x.v >= b}[o]: keep.add(x)
                    elif isinstance(x, Num) and x.kind == 'int':
                        lo, hi = x.lo, x.hi
                        if o is ast.Lt: hi = b - 1 if hi is None else min(hi, b - 1)
                        elif o is ast.LtE: hi = b if hi is None else min(hi, b)
                        elif o is ast.Gt: lo = b + 1 if lo is None else max(lo, b + 1)
                        else: lo = b if lo is None else max(lo, b)
                        if lo is not None and hi is not None and lo > hi: continue
                        keep.add(x._replace(lo=lo, hi=hi))
                    else: keep.add(x)
                if not keep: raise Dead()
                self.rebind(l, frozenset(keep), st)
        return self.finish_cmp(c, truth, st)
    def finish_cmp(self, c, truth, st):
        ct = self.cond_of(c, st)
        if self.gated and ct is not None and not isinstance(ct, bool): st.pc = st.pc + ((ct if truth else T.neg(ct)),)
        return ct
    def frames_equal(self, st, f, g):
        if f == '?' or g == '?': return None
        f, g = st.find(f), st.find(g)
        if f == g: return True
        if frozenset((f, g)) in self.neq: return False
        return None
    def assume_quant(self, e, truth, st):
        """assume(all(P(x) for x in C)) with truth, or any."""
        g = e.args[0]
        is_all = e.func.id == 'all'
        a = self.stack[-1]
        def run(gens, x, leaf):
            """Evaluate generators abstractly, once with generic elements; leaf(x)."""
            if not gens: return leaf(x)
            gen = gens[0]
            it = self.iterate(self.ev(gen.iter, x), x, gen)
            if it[0] == 'elem':
                self.assign(gen.target, it[1], x)
                for t in gen.ifs: self.assume(t, True, x)
                return run(gens[1:], x, leaf)
            raise KeyError
        v = self.ev(e, st)
        t = self.truth(v, st)
        if t is not None and t != truth: raise Dead()
        if truth == is_all and len(g.generators) == 1:
            gen = g.generators[0]
            src = self.ev(gen.iter, st)
            it = self.iterate(src, st, gen)
            if it[0] == 'elem' and not gen.ifs and isinstance(gen.target, ast.Name):
                x = st.copy()
                try:
                    x.envs[a.aid][gen.target.id] = it[1]
                    self.assume(g.elt, truth, x)
                    refined = x.envs[a.aid].get(gen.target.id)
                    st.eq = dict(x.eq)
                    if refined is not None and refined != it[1]:
                        for s in src:
                            if isinstance(s, Ref) and st.heap[s.oid].items is None:
                                r = st.heap[s.oid]
                                if r.kind == 'dict' and r.key == it[1]: st.heap[s.oid] = r.copy(key=refined)
                                elif r.kind != 'dict' and r.elem == it[1]: st.heap[s.oid] = r.copy(elem=refined)
                except Dead:
                    for s in src:   # only possible when the container is empty
                        if isinstance(s, Ref) and st.heap[s.oid].items is None and st.heap[s.oid].kind in ('list', 'tuple', 'set', 'dict'): st.heap[s.oid] = st.heap[s.oid].copy(items=())
            elif it[0] == 'items' and len(it[1]) >= 1 and not gen.ifs and isinstance(gen.target, ast.Name):
                new = []
                for item in it[1]:
                    x = st.copy()
                    x.envs[a.aid][gen.target.id] = item
                    self.assume(g.elt, truth, x)
                    st.eq = dict(x.eq); st.pc = x.pc
                    new.append(x.envs[a.aid].get(gen.target.id, item))
                for s in src:
                    if isinstance(s, Ref) and st.heap[s.oid].items is not None and len(src) == 1 and st.heap[s.oid].kind != 'dict' and len(st.heap[s.oid].items) == len(new):
                        st.heap[s.oid] = st.heap[s.oid].copy(items=tuple(new))
        return self.finish_cmp(v, truth, st)

    # ---------------------------------------------------------------- comparisons
    def eq_atoms(self, x, y, st):
        if isinstance(x, Top) or isinstance(y, Top): return None
        if isinstance(x, K) and isinstance(y, K):
            if x.ty == 'NoneType' or y.ty == 'NoneType' or x.ty == 'NotImplementedType' or y.ty == 'NotImplementedType' or x.ty == 'ellipsis': return x == y
            return x.v == y.v
        if isinstance(x, (K, Num)) and isinstance(y, (K, Num)):
            if isinstance(x, K) and x.ty not in ('int', 'float', 'bool') or isinstance(y, K) and y.ty not in ('int', 'float', 'bool'): return False
            tx, ty = self.term(one(x)), self.term(one(y))
            if tx is not None and ty is not None:
                c = T.eq0(T.sub(tx, ty))
                if isinstance(c, bool): return c
            lo = lambda z: z.v if isinstance(z, K) else z.lo
            hi = lambda z: z.v if isinstance(z, K) else z.hi
            if lo(x) is not None and hi(y) is not None and lo(x) > hi(y): return False
            if lo(y) is not None and hi(x) is not None and lo(y) > hi(x): return False
            return None
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.cls == y.cls == 'Triangulation': return self.frames_equal(st, x.fr[0], y.fr[0])
            if x.sym is not None and x.sym == y.sym and x.cls == y.cls: return True
            h = self.hooks.get('obj_eq')
            return h(x, y) if h else None
        cx, cy = edge_const(x), edge_const(y)
        if cx is not None and cy is not None and (isinstance(x, EdgeA) or isinstance(y, EdgeA)): return cx == cy
        if isinstance(x, EdgeA) and isinstance(y, EdgeA):
            if x.t is not None and x.t == y.t: return True
            h = self.hooks.get('edge_eq')
            return h(x, y) if h else None
        if isinstance(x, Ref) and isinstance(y, Ref):
            a, b = st.heap[x.oid], st.heap[y.oid]
            if x.oid == y.oid and a.kind != 'nd': return True
            if a.kind in ('list', 'tuple') and b.kind == a.kind and a.items is not None and b.items is not None:
                if len(a.items) != len(b.items): return False
                rs = [self.eq_vals(p, q, st) for p, q in zip(a.items, b.items)]
                return False if False in rs else None if None in rs else True
            if a.kind == b.kind == 'set' and a.items is not None and b.items is not None:
                sub = lambda p, q: [max([{True: 2, None: 1, False: 0}[self.eq_vals(i, j, st)] for j in q], default=0) for i in p]
                both = sub(a.items, b.items) + sub(b.items, a.items)
                return False if 0 in both else True if all(z == 2 for z in both) else None
            if a.kind == b.kind == 'inst' and 'inst_eq' in self.hooks: return self.hooks['inst_eq'](self, x, y, st)
            return None
        none = lambda z: isinstance(z, K) and z.ty in ('NoneType', 'NotImplementedType')
        if none(x) or none(y): return False
        prim = lambda z: isinstance(z, (K, Num, Str, Bool))
        if isinstance(x, Ref) and prim(y) or isinstance(y, Ref) and prim(x):
            r = st.heap[(x if isinstance(x, Ref) else y).oid]
            if r.kind in ('list', 'tuple', 'dict', 'set'): return False
        return None
    def eq_vals(self, a, b, st):
        rs = set(self.eq_atoms(x, y, st) for x in a for y in b)
        return rs.pop() if len(rs) == 1 else None
    def cmp(self, op, l, r, st, node):
        if not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and any(isinstance(x, Ref) and st.heap[x.oid].kind == 'nd' for x in l | r): return TOP
        if isinstance(op, (ast.Eq, ast.NotEq)):
            res = self.rich_eq(l, r, st, node, isinstance(op, ast.NotEq))
            return res
        if isinstance(op, (ast.Is, ast.IsNot)):
            rs = set()
            for x in l:
                for y in r:
                    if isinstance(x, K) and isinstance(y, K) : v = x == y
                    elif isinstance(x, Top) or isinstance(y, Top): v = None
                    elif isinstance(x, K) and x.ty in ('NoneType', 'NotImplementedType') or isinstance(y, K) and y.ty in ('NoneType', 'NotImplementedType'): v = False
                    elif isinstance(x, Ref) and isinstance(y, Ref): v = None if x == y else False
                    elif type(x) is not type(y): v = False
                    else: v = None
                    rs.add(v)
            t = rs.pop() if len(rs) == 1 else None
            if t is None: return BOOL
            return k(t == isinstance(op, ast.Is))
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(l, r, st, node)
            c = None
            if isinstance(t, tuple): c = t[0]; t = None
            if t is None: return one(Bool(c if isinstance(op, ast.In) else T.neg(c)))
            return k(t == isinstance(op, ast.In))
        # ordering
        self.check_float_mix(l, r, 'comparison', st, node); self.huge(l, r, node)
        if len(l) == 1 and len(r) == 1:
            tl, tr = self.term(l), self.term(r)
            if tl is not None and tr is not None:
                d = T.sub(tl, tr)
                c = {ast.Lt: lambda: T.gt0(T.scale(d, -1)), ast.LtE: lambda: T.ge0(T.scale(d, -1)), ast.Gt: lambda: T.gt0(d), ast.GtE: lambda: T.ge0(d)}[type(op)]()
                if isinstance(c, bool): return k(c)
                t = self.order_atoms(type(op), next(iter(l)), next(iter(r)))
                if isinstance(t, bool): return k(t)
                return one(Bool(c))
        rs = set()
        for x in l:
            for y in r:
                rs.add(self.order_atoms(type(op), x, y))
        t = rs.pop() if len(rs) == 1 else None
        for x in l:
            if isinstance(x, (Obj,)) and len(r) and x.cls in self.repo.classes:
                m = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
                if not self.repo.find_method(x.cls, m) and not self.repo.find_method(x.cls, '__lt__'): pass
        return BOOL if t is None else k(t)
    def order_atoms(self, op, x, y):
        def b(z):
            if isinstance(z, K) and z.ty in ('int', 'float', 'bool'): return z.v, z.v
            if isinstance(z, Num): return z.lo, z.hi
            return None, None
        (l1, h1), (l2, h2) = b(x), b(y)
        if op in (ast.Gt, ast.GtE): (l1, h1), (l2, h2) = (l2, h2), (l1, h1); op = ast.Lt if op is ast.Gt else ast.LtE
        if op is ast.Lt:
            if h1 is not None and l2 is not None and h1 < l2: return True
            if l1 is not None and h2 is not None and l1 >= h2: return False
        else:
            if h1 is not None and l2 is not None and h1 <= l2: return True
            if l1 is not None and h2 is not None and l1 > h2: return False
        return None
    def contains(self, l, r, st, node):
        for x in r:
            if isinstance(x, Ref) and len(r) == 1:
                rec = st.heap[x.oid]
                if rec.kind in ('list', 'tuple', 'set', 'dict', 'iter') and rec.items is not None:
                    its = [i[0] if rec.kind == 'dict' else i for i in rec.items]
                    rs = [self.eq_vals(l, i, st) for i in its]
                    if True in rs: return True
                    if all(z is False for z in rs): return False
            if isinstance(x, K) and x.ty == 'str' and len(r) == 1 and len(l) == 1 and isinstance(next(iter(l)), K): return next(iter(l)).v in x.v
        h = self.hooks.get('contains')
        return h(self, l, r, st) if h else None
    def rich_eq(self, l, r, st, node, ne):
        """== / != through __eq__ of library classes when hooked; otherwise structural."""
        self.check_float_mix(l, r, 'comparison', st, node)
        if len(l) == 1 and len(r) == 1:
            tl, tr = self.term(l), self.term(r)
            if tl is not None and tr is not None:
                c = T.eq0(T.sub(tl, tr))
                if isinstance(c, bool): return k(c != ne)
                return one(Bool(T.neg(c) if ne else c))
        t = self.eq_vals(l, r, st)
        if t is not None: return k(t != ne)
        if len(l) >= 1 and len(r) >= 1:
            lf = set(st.find(x.fr[0]) if isinstance(x, Obj) and len(x.fr) == 1 and x.cls != 'Triangulation' else '?' for x in l)
            rf = set(st.find(x.fr[0]) if isinstance(x, Obj) and len(x.fr) == 1 and x.cls != 'Triangulation' else '?' for x in r)
            if '?' not in lf | rf and not lf & rf and any('#' in f or f.startswith('J') for f in lf | rf): self.event('meet', 'objects of two triangulations are compared', node)
        h = self.hooks.get('eq')
        if h:
            c = h(self, l, r, st, node)
            if c is not None: return k(c != ne) if isinstance(c, bool) else one(Bool(T.neg(c) if ne else c))
        # two instances (or arrays) analysed structurally
        for x in l:
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'nd': return TOP
        return BOOL

    def check_float_mix(self, l, r, what, st, node):
        fl = lambda v: any((isinstance(x, Num) and x.kind in ('float', 'np')) for x in v)
        ex = lambda v: any(isinstance(x, Num) and x.kind in ('int', 'frac', 'alg') and 'idx' != x.tag for x in v)
        cfl = lambda v: any(isinstance(x, K) and x.ty == 'float' for x in v)
        for a, b in ((l, r), (r, l)):
            if fl(a) and (ex(b)): self.event('float', f'{what} of a floating-point or fixed-width number with an exact number', node)
            elif cfl(a) and any(isinstance(x, Num) and x.kind in ('int', 'frac', 'alg') and (x.lo is None or x.hi is None) for x in b): self.event('float', f'{what} of a floating-point constant with an exact number', node)

    # ---------------------------------------------------------------- simple expressions
    def e_Constant(self, e, st):
        if e.value is Ellipsis: return TOP
        return k(e.value)
    def e_JoinedStr(self, e, st):
        text = ''
        for v in e.values:
            x = self.ev(v.value, st) if isinstance(v, ast.FormattedValue) else k(v.value) if isinstance(v, ast.Constant) else TOP
            c = next(iter(x)) if len(x) == 1 else None
            if text is not None and isinstance(c, K) and c.ty in ('int', 'str') and (not isinstance(v, ast.FormattedValue) or v.conversion == -1 and v.format_spec is None): text += str(c.v)
            else: text = None
        return STR if text is None or len(text) > 64 else k(text)
    def e_Name(self, e, st): return self.lookup(e.id, st, node=e)
    def lookup(self, name, st, quiet=False, node=None):
        a = self.stack[-1]
        env = st.envs.get(a.aid, {})
        if name in env: return env[name]
        p = a.parent
        while p is not None:
            if name in st.envs.get(p, {}): return st.envs[p][name]
            p = self.acts[p].parent if p in self.acts else None
        v = self.module_name(a.module, name)
        if v is not None: return v
        if name in BUILTINS or name in EXC_PARENTS: return one(Ext(name))
        if name == 'NotImplemented': return NI
        if name == '__class__' and a.cls: return one(Cls(a.cls))
        return TOP
    def module_name(self, m, name):
        b = m.names.get(name)
        if b is None: return None
        if b[0] == 'func': return one(Fn(b[1], None, None, None))
        if b[0] == 'class': return one(Cls(name))
        if b[0] == 'mod':
            return one(Mod(b[1])) if b[1].split('.')[0] == 'curver' else one(Ext(b[1]))
        if b[0] == 'from' and b[1] == m.dotted: return one(Mod(b[1] + '.' + b[2])) if b[1] + '.' + b[2] in self.repo.modules else TOP
        if b[0] == 'from': return self.resolve_from(b[1], b[2])
        if b[0] == 'expr':
            key = (m.dotted, name)
            if key not in self._mconst:
                self._mconst[key] = TOP
                e = b[1]
                if isinstance(e, ast.Constant): self._mconst[key] = k(e.value)
                elif isinstance(e, ast.Lambda): self._mconst[key] = one(Fn(e, None, None, None))
                elif isinstance(e, (ast.Name, ast.Attribute)): self._mconst[key] = self.static_ref(m, e)
                elif isinstance(e, ast.Call):
                    f = self.static_ref(m, e.func)
                    for x in f:
                        if isinstance(x, Ext) and x.name.endswith('namedtuple'): self._mconst[key] = one(Ext('namedtuple:' + name))
                        elif isinstance(x, Ext) and x.name == 're.compile': self._mconst[key] = one(Ext('re.' + self.pattern(e.args[0].value))) if len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) else one(Ext('re.Pattern'))
                        elif isinstance(x, Cls): self._mconst[key] = one(Obj(x.name, (), 'global ' + name, ('global', name)))
                elif isinstance(e, (ast.BinOp,)): self._mconst[key] = STR if 'ascii' in ast.dump(e) or 'str' in ast.dump(e) else TOP
            return self._mconst[key]
        return TOP
    def static_ref(self, m, e):
        if isinstance(e, ast.Name): return self.module_name(m, e.id) or (one(Ext(e.id)) if e.id in BUILTINS else TOP)
        if isinstance(e, ast.Attribute):
            out = BOT
            for x in self.static_ref(m, e.value): out = self.join(out, self.modattr(x, e.attr))
            return out or TOP
        return TOP
    def resolve_from(self, base, name):
        if base in self.repo.modules:
            v = self.module_name(self.repo.modules[base], name)
            if v is not None: return v
        if base + '.' + name in self.repo.modules: return one(Mod(base + '.' + name))
        if base.split('.')[0] == 'curver': return TOP
        return one(Ext(base + '.' + name))
    def modattr(self, x, attr):
        if isinstance(x, Mod):
            if x.name in self.repo.modules:
                v = self.module_name(self.repo.modules[x.name], attr)
                if v is not None: return v
            if x.name + '.' + attr in self.repo.modules: return one(Mod(x.name + '.' + attr))
            return TOP
        if isinstance(x, Ext): return one(Ext(x.name + '.' + attr))
        if isinstance(x, Cls):
            m = self.repo.find_method(x.name, attr)
            if m and 'classmethod' in [d for d, _ in self.repo.decorators(m[1])]: return one(Fn(m[1], one(x), None, m[0]))
        return TOP
    def e_Tuple(self, e, st): return self.seq(e, st, 'tuple')
    def e_List(self, e, st): return self.seq(e, st, 'list')
    def e_Set(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts): return self.seq(e, st, 'set')
        items = [self.ev(x, st) for x in e.elts]
        return self.mk_set(st, e, items)
    def seq(self, e, st, kind):
        items, known, elem = [], True, BOT
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, st), st, x)
                if it[0] == 'items': items += it[1]
                else: known = False; elem = self.join(elem, it[1] if it[0] == 'elem' else TOP)
            else: items.append(self.ev(x, st))
        if known: return self.new(st, e, kind, items=items)
        for i in items: elem = self.join(elem, i)
        return self.new(st, e, kind, elem=elem, ne=bool(items))
    def e_Dict(self, e, st):
        items, known = [], True
        kk, vv = BOT, BOT
        for a, b in zip(e.keys, e.values):
            if a is None:
                for x in self.ev(b, st):
                    if isinstance(x, Ref) and st.heap[x.oid].kind == 'dict' and st.heap[x.oid].items is not None:
                        for i in st.heap[x.oid].items: items = [z for z in items if z[0] != i[0]] + [i]
                    else:
                        known = False
                        if isinstance(x, Ref): q, w = self.summary(st.heap[x.oid]); kk, vv = self.join(kk, q), self.join(vv, w)
                        else: kk, vv = TOP, TOP
            else:
                ka, va = self.ev(a, st), self.ev(b, st)
                items = [z for z in items if not self.same_key(z[0], ka, st)] + [(ka, va)]
        if known: return self.new(st, e, 'dict', items=items)
        for a, b in items: kk, vv = self.join(kk, a), self.join(vv, b)
        return self.new(st, e, 'dict', key=kk, elem=vv, ne=bool(items))
    def e_Lambda(self, e, st): return one(Fn(e, None, self.stack[-1].aid, self.stack[-1].cls))
    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st); self.assign(e.target, v, st); return v
    def e_Starred(self, e, st): return TOP
    def e_IfExp(self, e, st):
        outs, vals, cond = [], [], None
        for truth, b in ((True, e.body), (False, e.orelse)):
            x = st.copy()
            try:
                c = self.assume(e.test, truth, x)
                if truth: cond = c
                v = self.ev(b, x)
                outs.append(x); vals.append(v)
            except Dead: pass
        if not outs: raise Dead()
        if len(outs) == 1: self.become(st, outs[0]); return vals[0]
        a = self.stack[-1]
        for x, v in zip(outs, vals): x.envs[a.aid]['$t'] = v
        self.become(st, self.join_states(outs[0], outs[1], id(e), cond))
        return st.envs[a.aid].pop('$t')
    def e_BoolOp(self, e, st):
        # Values matter only when not boolean; conditions are combined for gated mode.
        is_and = isinstance(e.op, ast.And)
        cur = st.copy()
        outs, vals, conds = [], [], []
        for i, v in enumerate(e.values):
            x = cur.copy()
            val = None
            last = i == len(e.values) - 1
            try:
                val = self.ev(v, x)
                conds.append(self.cond_of(val, x))
                if last: outs.append(x); vals.append(val); break
                stay = frozenset(z for z in val if self.truth_atom(z, x) is not is_and)
                if stay:
                    y = cur.copy()
                    try: self.assume(v, not is_and, y); outs.append(y); vals.append(frozenset(K('bool', not is_and) if isinstance(z, Bool) else z for z in stay))
                    except Dead: pass
                self.assume(v, is_and, cur)
            except Dead: break
        if not outs: raise Dead()
        for x in outs: x.pc = st.pc
        r = BOT
        for v in vals: r = self.join(r, v)
        c = T.conj(conds) if is_and else T.disj(conds)
        self.become(st, self.merge(outs, id(e)))
        if all(isinstance(z, (Bool,)) or isinstance(z, K) and z.ty == 'bool' for z in r):
            if isinstance(c, bool): return k(c) if all(x is not None for x in conds) else r
            if len(r) > 1 or any(isinstance(z, Bool) for z in r): return one(Bool(c if len(conds) == len(e.values) else None))
        return r
    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            out.append(self.cmp(op, l, r, st, e)); l = r
        if len(out) == 1: return out[0]
        ts = [self.truth(v, st) for v in out]
        if False in ts: return FALSE
        if all(t is True for t in ts): return TRUE
        return one(Bool(T.conj([self.cond_of(v, st) for v in out])))
    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if t is not None: return k(not t)
            return one(Bool(T.neg(self.cond_of(v, st))))
        out = BOT
        for x in v:
            if isinstance(x, K) and x.ty in ('int', 'float', 'bool'):
                r = k({ast.USub: lambda z: -z, ast.Invert: lambda z: ~int(z), ast.UAdd: lambda z: +z}[type(e.op)](x.v)) if not (x.ty == 'float' and isinstance(e.op, ast.Invert)) else TOP
            elif isinstance(x, Num):
                if isinstance(e.op, ast.USub): r = one(Num(x.kind, None if x.hi is None else -x.hi, None if x.lo is None else -x.lo, x.tag, T.scale(x.t, -1)))
                elif isinstance(e.op, ast.Invert): r = one(Num(x.kind, None if x.hi is None else ~x.hi, None if x.lo is None else ~x.lo, x.tag, T.add(T.scale(x.t, -1), T.const(-1))))
                else: r = one(x)
            elif isinstance(x, EdgeA) and isinstance(e.op, ast.Invert): r = one(EdgeA(x.tag, self.inv_edge(x.t)))
            elif isinstance(x, Ref) and st.heap[x.oid].kind == 'nd': r = self.map_nd(x, lambda v: self.neg_val(v), st, e)
            else:
                m = {ast.USub: '__neg__', ast.Invert: '__invert__', ast.UAdd: '__pos__'}[type(e.op)]
                r = self.call_dunder(x, m, [], st, e)
            out = self.join(out, r)
        return out or TOP
    def neg_val(self, v):
        out = BOT
        for x in v:
            if isinstance(x, K) and x.ty == 'int': out = self.join(out, k(-x.v))
            elif isinstance(x, Num): out = self.join(out, one(Num(x.kind, None, None, x.tag, T.scale(x.t, -1))))
            else: out = TOP
        return out
    def inv_edge(self, t):
        if t is None: return None
        if t[0] == 'edge' and T.is_const(t[1]): return ('edge', T.const(~t[1][2]))
        return t[1] if t[0] == 'inv' else ('inv', t)
    def call_dunder(self, x, m, args, st, node):
        if isinstance(x, Top): return TOP
        cls = x.cls if isinstance(x, Obj) else st.heap[x.oid].cls if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst' else None
        if cls is None or cls not in self.repo.classes: return TOP
        f = self.getattr_(one(x), m, st, node, quiet=True)
        if f == TOP: return TOP
        return self.call(f, args, {}, st, node)
    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.MatMult: 'matmul'}
    def e_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), st, e)
    def binop(self, op, l, r, st, node):
        if TOPA in l and len(l) == 1 or TOPA in r and len(r) == 1: 
            return self.binop_top(op, l, r, st, node)
        self.check_float_mix(l, r, 'arithmetic', st, node)
        out = BOT
        for x in l:
            for y in r: out = self.join(out, self.binop1(op, x, y, st, node))
        return out or TOP
    def binop_top(self, op, l, r, st, node):
        return TOP
    def binop1(self, op, x, y, st, node):
        isn = lambda z: isinstance(z, Num) or isinstance(z, K) and z.ty in ('int', 'float', 'bool') or isinstance(z, Bool)
        if isn(x) and isn(y): return self.arith(op, x, y, st, node)
        if isinstance(x, K) and x.ty == 'str' or isinstance(x, Str):
            if isinstance(op, ast.Add) and isinstance(x, K) and isinstance(y, K) and y.ty == 'str': return k(x.v + y.v)
            return STR
        if isinstance(x, Ref) or isinstance(y, Ref):
            r = self.binop_ref(op, x, y, st, node)
            if r is not None: return r
        # library objects
        name = self.DUNDER.get(type(op))
        lc = x.cls if isinstance(x, Obj) else st.heap[x.oid].cls if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst' else None
        rc = y.cls if isinstance(y, Obj) else st.heap[y.oid].cls if isinstance(y, Ref) and st.heap[y.oid].kind == 'inst' else None
        res = BOT
        tried = False
        if lc in self.repo.classes and self.repo.find_method(lc, f'__{name}__'):
            tried = True
            v = self.call_dunder(x, f'__{name}__', [one(y)], st, node)
            good = frozenset(z for z in v if z != next(iter(NI)))
            if good == v: return v
            res = good
        if rc in self.repo.classes and self.repo.find_method(rc, f'__r{name}__'):
            v = self.call_dunder(y, f'__r{name}__', [one(x)], st, node)
            good = frozenset(z for z in v if z != next(iter(NI)))
            res = self.join(res, good)
            if good == v: return res
        elif not tried and (lc in self.repo.classes or rc in self.repo.classes): return TOP
        if not res:
            if lc in self.repo.classes or rc in self.repo.classes: self.raise_(st, 'TypeError', node)
            return TOP
        self.may_raise(st, 'TypeError', node)
        return res
    def arith(self, op, x, y, st, node):
        self.ariths += 1
        if isinstance(op, (ast.Mod, ast.BitAnd)): self.huge(one(x), one(y), node)
        b = lambda z: K('int', int(z.v)) if isinstance(z, K) and z.ty == 'bool' else Num('int', 0, 1, None, None) if isinstance(z, Bool) else z
        x, y = b(x), b(y)
        if isinstance(x, K) and isinstance(y, K):
            try:
                f = {ast.Add: lambda a, c: a + c, ast.Sub: lambda a, c: a - c, ast.Mult: lambda a, c: a * c, ast.FloorDiv: lambda a, c: a // c, ast.Mod: lambda a, c: a % c,
                     ast.Pow: lambda a, c: a ** c if abs(c) < 64 and abs(a) < 10**6 else None, ast.Div: lambda a, c: a / c, ast.LShift: lambda a, c: a << c if c < max(64, self.wide) else None, ast.RShift: lambda a, c: a >> c, ast.BitOr: lambda a, c: a | c, ast.BitAnd: lambda a, c: a & c, ast.BitXor: lambda a, c: a ^ c}[type(op)]
                v = f(x.v, y.v)
                return k(v) if v is not None else INT
            except ZeroDivisionError: self.raise_(st, 'ZeroDivisionError', node)
            except Exception: return TOP
        kx, ky = self.kind_of(x), self.kind_of(y)
        tag = None
        tg = lambda z: z.tag if isinstance(z, Num) and z.tag not in ('idx', 'w') else None
        tx, ty = tg(x), tg(y)
        if tx is not None and ty is not None and isinstance(op, (ast.Add, ast.Sub)):
            if not st.same(tx, ty): self.event('mix', 'weights of two triangulations are added', node)
            tag = tx
        elif tx is not None or ty is not None: tag = tx if tx is not None else ty
        elif any(isinstance(z, Num) and z.tag == 'w' for z in (x, y)): tag = 'w'
        kinds = {kx, ky}
        if 'float' in kinds: kind = 'float'
        elif 'np' in kinds: kind = 'np'
        elif 'alg' in kinds: kind = 'alg'
        elif 'frac' in kinds: kind = 'frac'
        else: kind = 'int'
        lo = lambda z: z.v if isinstance(z, K) else z.lo
        hi = lambda z: z.v if isinstance(z, K) else z.hi
        a, c = self.term(one(x)), self.term(one(y))
        t = None; L = H = None
        if isinstance(op, ast.Add):
            t = T.add(a, c)
            if lo(x) is not None and lo(y) is not None: L = lo(x) + lo(y)
            if hi(x) is not None and hi(y) is not None: H = hi(x) + hi(y)
        elif isinstance(op, ast.Sub):
            t = T.sub(a, c) if a is not None and c is not None else None
            if lo(x) is not None and hi(y) is not None: L = lo(x) - hi(y)
            if hi(x) is not None and lo(y) is not None: H = hi(x) - lo(y)
        elif isinstance(op, ast.Mult):
            t = T.mul(a, c)
            if lo(x) is not None and lo(y) is not None and lo(x) >= 0 and lo(y) >= 0: L = lo(x) * lo(y)
        elif isinstance(op, ast.FloorDiv):
            if isinstance(y, K) and isinstance(y.v, int) and y.v != 0: t = T.fdiv(a, y.v)
            if kind in ('frac', 'alg'): kind = 'int'
            self.rounded(x, y, node)
            if lo(x) is not None and lo(x) >= 0 and lo(y) is not None and lo(y) > 0: L = 0
            h = self.hooks.get('floordiv')
            if h: h(self, x, y, st, node)
            tag = None
        elif isinstance(op, ast.Mod):
            if isinstance(y, K) and isinstance(y.v, int) and y.v > 0:
                L, H = 0, y.v - 1
                t = T.sub(a, T.scale(T.fdiv(a, y.v), y.v)) if a is not None else None
            tag = None
        elif isinstance(op, ast.Div):
            if kind == 'int':
                self.event('float', 'true division of integers', node); kind = 'float'
            if isinstance(y, K) and y.v and a is not None:
                from fractions import Fraction
                t = T.scale(a, Fraction(1, y.v)) if isinstance(y.v, int) else None
            tag = None
        elif isinstance(op, ast.Pow):
            t = T.app('pow', a, c) and T.sym(('pow', a, c)) if a is not None and c is not None else None
            if lo(y) is not None and lo(y) < 0 and kind == 'int' and isinstance(y, K): kind = 'float'; self.event('float', 'negative power of an integer', node)
            if lo(x) is not None and lo(x) >= 1: L = 1
            elif y == K('int', 2): L = 0
            if isinstance(y, K) and y.ty == 'float': self.event('float', 'floating-point power', node)
        elif isinstance(op, (ast.LShift, ast.RShift)):
            if isinstance(op, ast.RShift): self.rounded(x, y, node)
            elif isinstance(y, K) and isinstance(y.v, int) and 0 <= y.v < max(64, self.wide): t = T.scale(a, 1 << y.v)
            if lo(x) is not None and lo(x) >= 0: L = 0
        if t is not None and T.is_const(t) and kind == 'int' and t[2] == int(t[2]): return k(int(t[2]))
        return one(Num(kind, L, H, tag, t))

    def rounded(self, x, y, node):
        """Halving a weight with rounding, where nothing in the function looks at its parity."""
        if isinstance(x, Num) and x.tag not in (None, 'idx') and isinstance(y, K) and self.stack and self.stack[-1].cls != 'Half':
            for z in ast.walk(self.stack[-1].node):
                if isinstance(z, ast.BinOp) and isinstance(z.op, (ast.Mod, ast.BitAnd)) or isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == 'divmod': return
            self.event('float', 'a weight is divided with rounding', node)
    def huge(self, l, r, node):
        big = lambda v: len(v) == 1 and any(isinstance(x, K) and x.ty in ('int', 'float') and abs(x.v) >= 2**12 for x in v)
        ex = lambda v: any(isinstance(x, Num) and x.kind in ('int', 'frac', 'alg') and x.tag != 'idx' and x.hi is None for x in v)
        if big(l) and ex(r) or big(r) and ex(l): self.event('float', 'what happens depends on whether an exact number is larger than a fixed bound', node)

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, e, st):
        v = self.ev(e.value, st)
        return self.getattr_(v, e.attr, st, e)
    def getattr_(self, v, attr, st, node, quiet=False):
        if len(v) == 1: return self.attr1(next(iter(v)), attr, st, node, quiet)
        # a value of several possible kinds: reported only when none of them has the attribute
        out, dead = BOT, []
        for x in sorted(v, key=repr):
            try: out = self.join(out, self.attr1(x, attr, st, node, True))
            except Dead: dead.append(x)
        if not out and v:
            if not quiet and dead: self.event('attr', f'no value that can arrive here has the attribute {attr}', node)
            raise Dead()
        return out
    def class_fields(self, cls):
        """Every attribute that a method of the class (or its bases) assigns to self."""
        key = ('cf', cls)
        if key not in self._mconst:
            out = set()
            for c in self.repo.mro(cls):
                ci = self.repo.classes.get(c)
                if ci is None: out.add('*') if c not in ('object', 'ABC') and c != cls else None; continue
                out |= set(ci.attrs)
                for m in ci.methods.values():
                    for n in ast.walk(m):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): out.add(n.attr)
                sl = ci.attrs.get('__slots__')
                if sl is not None: out |= set(x.value for x in ast.walk(sl) if isinstance(x, ast.Constant))
            self._mconst[key] = out
        return self._mconst[key]
    def attr1(self, x, attr, st, node, quiet=False):
        if isinstance(x, (Mod,)): return self.modattr(x, attr)
        if isinstance(x, Ext): return one(Ext(x.name + '.' + attr))
        if attr == '__class__':
            if isinstance(x, Obj): return one(Cls(x.cls))
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst': return one(Cls(st.heap[x.oid].cls))
            return TOP
        if attr == '__name__': return STR
        if isinstance(x, Obj) or isinstance(x, Ref) and st.heap[x.oid].kind == 'inst':
            cls = x.cls if isinstance(x, Obj) else st.heap[x.oid].cls
            if isinstance(x, Ref):
                f = st.heap[x.oid].fields
                if attr in f: return f[attr]
            else:
                h = self.field(x, attr, st, node)
                if h is not None: return h
            m = self.repo.find_method(cls, attr)
            if m:
                decs = [d for d, _ in self.repo.decorators(m[1])]
                if 'classmethod' in decs: return one(Fn(m[1], one(Cls(cls)), None, m[0]))
                if 'staticmethod' in decs: return one(Fn(m[1], None, None, m[0]))
                if 'property' in decs: return self.call(one(Fn(m[1], one(x), None, m[0])), [], {}, st, node)
                return one(Fn(m[1], one(x), None, m[0]))
            ca = self.repo.find_attr_expr(cls, attr)
            if ca: return self.static_value(ca[0].module, ca[1])
            if attr == 'set_cache': return one(Ext('set_cache'))
            if cls in self.repo.classes and '*' not in self.class_fields(cls) and attr not in self.class_fields(cls) and not attr.startswith('__') and not isinstance(x, Ref):
                if not quiet: self.event('attr', f'{cls} has no attribute {attr}', node)
                self.raise_(st, 'AttributeError', node)
            if isinstance(x, Ref) and cls in self.repo.classes and attr == '_cache': return TOP
            return TOP
        if isinstance(x, Sup):
            m = None
            inst = next(iter(x.selfv)) if x.selfv else None
            icls = inst.cls if isinstance(inst, Obj) else st.heap[inst.oid].cls if isinstance(inst, Ref) else x.cls
            mro = self.repo.mro(icls if x.cls in self.repo.mro(icls) else x.cls)
            for c in mro[mro.index(x.cls) + 1:]:
                ci = self.repo.classes.get(c)
                if ci and attr in ci.methods: return one(Fn(ci.methods[attr], x.selfv, None, c))
            return one(Ext('object.' + attr))
        if isinstance(x, Cls):
            m = self.repo.find_method(x.name, attr)
            if m:
                decs = [d for d, _ in self.repo.decorators(m[1])]
                if 'classmethod' in decs: return one(Fn(m[1], one(x), None, m[0]))
                return one(Fn(m[1], None, None, m[0]))
            ca = self.repo.find_attr_expr(x.name, attr)
            if ca: return self.static_value(ca[0].module, ca[1])
            return TOP
        if isinstance(x, EdgeA):
            if attr in ('label', 'index') and edge_const(x) is not None: return k(edge_const(x) if attr == 'label' else max(edge_const(x), ~edge_const(x)))
            if attr == 'label': return one(Num('int', None, None, 'idx', self.label_term(x.t)))
            if attr == 'index': return one(Num('int', 0, None, 'idx', self.index_term(x.t)))
            m = self.repo.find_method('Edge', attr)
            if m: return one(BM(x, attr))
            if not quiet: self.event('attr', f'Edge has no attribute {attr}', node)
            self.raise_(st, 'AttributeError', node)
        if isinstance(x, Num) or isinstance(x, K) and x.ty in ('int', 'bool', 'float'):
            kind = self.kind_of(x)
            if attr in ('numerator', 'denominator') and isinstance(x, Num) and x.t is not None and x.t[0] == 'lin' and T.is_const(x.t) and kind in ('int', 'frac', 'bool'): return one(K('int', getattr(Fraction(x.t[2]), attr)))
            if attr in ('numerator', 'denominator') and kind in ('int', 'frac', 'bool'): return one(Num('int', 1 if attr == 'denominator' else None, None, None, T.sym((attr, x.t)) if isinstance(x, Num) and x.t is not None else None))
            known = {'int': dir(int), 'bool': dir(int), 'frac': None, 'alg': None, 'float': dir(float), 'np': None}[kind]
            if known is not None and attr not in known:
                if not quiet: self.event('attr', f'{kind} has no attribute {attr}', node)
                self.raise_(st, 'AttributeError', node)
            return one(BM(x, attr))
        if isinstance(x, (K, Str, Bool)):
            ty = type(x.v) if isinstance(x, K) else str if isinstance(x, Str) else bool
            if isinstance(x, K) and x.ty == 'NotImplementedType': ty = type(NotImplemented)
            if not hasattr(ty, attr):
                if not quiet: self.event('attr', f'{ty.__name__} has no attribute {attr}', node)
                self.raise_(st, 'AttributeError', node)
            return one(BM(x, attr))
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.aux is not None and r.aux[0] == 'nt':
                if attr in r.aux[1]: return r.items[r.aux[1].index(attr)] if r.items is not None else (r.elem or TOP)
                return TOP
            pt = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set}.get(r.kind)
            if pt is not None and not r.cls and not hasattr(pt, attr):
                if r.aux == ('counter',) and attr in ('elements', 'most_common', 'subtract'): return one(BM(x, attr))
                if not quiet: self.event('attr', f'{r.kind} has no attribute {attr}', node)
                self.raise_(st, 'AttributeError', node)
            if r.kind == 'nd' and attr == 'shape': return self.nd_shape(x, st, node)
            if r.kind == 'nd' and attr == 'T': return self.call_bm(BM(x, 'transpose'), [], {}, st, node)
            return one(BM(x, attr))
        if isinstance(x, BM): return TOP
        if isinstance(x, Fn): return TOP
        return TOP
    def label_term(self, t): return T.sym(('label', t)) if t is not None and not (isinstance(t, tuple) and t[0] == 'edge') else (t[1] if t is not None else None)
    def index_term(self, t):
        if t is None: return None
        if t[0] == 'edge': 
            if T.is_const(t[1]): v = t[1][2]; return T.const(max(v, ~v))
            return T.sym(('norm', t[1]))
        b = t[1] if t[0] == 'inv' else t
        return T.sym(('index', b))
    def static_value(self, m, e):
        if isinstance(e, ast.Constant): return k(e.value)
        if isinstance(e, (ast.Name, ast.Attribute)): return self.static_ref(m, e)
        return TOP
    def field(self, x, attr, st, node):
        for c in self.repo.mro(x.cls):
            f = self.fields.get(c, {}).get(attr)
            if f is not None: return f(self, st, x, node)
        return None

    # ---------------------------------------------------------------- subscripts
    def ev_index(self, s, st):
        if isinstance(s, ast.Slice): return None
        return self.ev(s, st)
    def e_Slice(self, e, st):
        for p in (e.lower, e.upper, e.step):
            if p is not None: self.ev(p, st)
        return one(Obj('slice', (), 'fresh', None))
    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else None
            step = self.ev(e.slice.step, st) if e.slice.step is not None else None
            out = BOT
            for x in v: out = self.join(out, self.slice1(x, lo, hi, step, st, e))
            return out or TOP
        i = self.ev(e.slice, st)
        out = BOT
        for x in v: out = self.join(out, self.getitem1(x, i, st, e))
        return out or TOP
    def slice1(self, x, lo, hi, step, st, node):
        if isinstance(x, K) and x.ty == 'str':
            cs = [None if v is None or v == NONE else self.const_index(v) for v in (lo, hi, step)]
            if all(c is not None or v is None or v == NONE for c, v in zip(cs, (lo, hi, step))) and cs[2] != 0: return k(x.v[slice(*cs)])
        if isinstance(x, K) and x.ty == 'str' or isinstance(x, Str): return STR
        if isinstance(x, Obj):
            if x.cls in ('Encoding', 'Mapping', 'MappingClass'):
                return frozenset(Obj(c, ('?', '?'), 'shared', None) for c in ('Mapping', 'MappingClass') + (('Encoding',) if x.cls == 'Encoding' else ()))
            return self.call_dunder(x, '__getitem__', [one(Obj('slice', (), 'fresh', None))], st, node)
        if not isinstance(x, Ref): return TOP
        r = st.heap[x.oid]
        if r.kind == 'inst': return self.call_dunder(x, '__getitem__', [self.slice_of(lo, hi, step, st, node)], st, node)
        if r.kind not in ('list', 'tuple', 'nd'): return TOP
        ci = lambda v: None if v is None else self.const_index(v)
        lo, hi, step = (None if v == NONE else v for v in (lo, hi, step))
        l, h, s = ci(lo), ci(hi), ci(step)
        if r.items is not None and (lo is None or l is not None) and (hi is None or h is not None) and (step is None or s is not None):
            return self.new(st, node, r.kind, items=r.items[slice(l, h, s)], aux=r.aux)
        aux = None
        if r.aux is not None and r.aux[0] == 'seq':
            if lo is None and hi is None: aux = ('seq', r.aux[1], r.aux[2]) if step is None else ('rseq', r.aux[1], r.aux[2])
            else: aux = ('seq', '?', '?')
        if r.aux is not None and r.aux[0] == 'dtype': aux = r.aux
        if r.aux is not None and r.aux[0] == 'sym':
            aux = ('sym', ('slice', r.aux[1], self.key_of(lo), self.key_of(hi), self.key_of(step)))
        return self.new(st, node, r.kind, elem=self.summary(r)[1], ne=False, aux=aux)
    def slice_of(self, lo, hi, step, st, node):
        return self.alloc(st, node, Rec('inst', org='fresh', cls='slice', fields={n: NONE if v is None else v for n, v in (('start', lo), ('stop', hi), ('step', step))}), 'slice')
    def key_of(self, v):
        if v is None: return None
        t = self.term(v)
        return t if t is not None else '*'
    def getitem1(self, x, i, st, node):
        if isinstance(x, K) and x.ty == 'str':
            j = self.const_index(i)
            if j is not None and -len(x.v) <= j < len(x.v): return k(x.v[j])
            if j is not None: self.raise_(st, 'IndexError', node)
        if isinstance(x, Str) or isinstance(x, K) and x.ty == 'str': return STR
        if isinstance(x, (Obj,)):
            if x.cls in ('Encoding', 'Mapping', 'MappingClass') and any(isinstance(z, (K, Num)) for z in i): return one_move(self, x, ('?', '?'))
            return self.call_dunder(x, '__getitem__', [i], st, node)
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.kind == 'inst': return self.call_dunder(x, '__getitem__', [i], st, node)
            y = self.sole(i) if len(i) == 1 else None
            if isinstance(y, Ref) and st.heap[y.oid].cls == 'slice':
                f = st.heap[y.oid].fields
                return self.slice1(x, f['start'], f['stop'], f['step'], st, node)
            h = self.hooks.get('getitem')
            if h:
                v = h(self, x, r, i, st, node)
                if v is not None: return v
            if r.kind in ('list', 'tuple', 'nd'):
                j = self.const_index(i)
                if r.items is not None and j is not None:
                    if -len(r.items) <= j < len(r.items): return r.items[j]
                    self.raise_(st, 'IndexError', node)
                if r.aux is not None and r.aux[0] == 'seq' and j is not None and j == -1 and False: return TOP
                return self.summary(r)[1] or TOP
            if r.kind == 'dict':
                if r.items is not None and self.decided_key(i, [a for a, b in r.items], st):
                    for a, b in r.items:
                        if self.eq_vals(a, i, st): return b
                    if all(self.eq_vals(a, i, st) is False for a, b in r.items) and r.aux != ('counter',) and (r.aux is None or r.aux[0] != 'default'):
                        self.raise_(st, 'KeyError', node)
                if r.aux is not None and r.aux[0] == 'default' and not r.items and r.elem == BOT: return r.aux[1]
                if r.aux == ('counter',): return k(0) if r.items is not None and all(self.eq_vals(a, i, st) is False for a, b in r.items) else NAT
                if r.aux is not None and r.aux[0] == 'default': return self.join(self.summary(r)[1], r.aux[1])
                return self.summary(r)[1] or TOP
        return TOP

    # ---------------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st): return self.comp(e, st, 'list')
    def e_SetComp(self, e, st): return self.comp(e, st, 'set')
    def e_GeneratorExp(self, e, st): return self.comp(e, st, 'iter')
    def e_DictComp(self, e, st): return self.comp(e, st, 'dict')
    def comp(self, e, st, kind):
        a = self.stack[-1]
        saved = dict(st.envs[a.aid])
        res, exact = [], [True]
        aux = [None]
        def go(gens, x, certain):
            if not gens:
                if kind == 'dict': res.append((self.ev(e.key, x), self.ev(e.value, x)))
                else: res.append(self.ev(e.elt, x))
                if not certain: exact[0] = False
                return
            g = gens[0]
            it = self.iterate(self.ev(g.iter, x), x, g)
            if it[0] == 'items': elems = it[1]; cert = certain
            elif it[0] == 'chain':
                n1, n2 = self.fresh_frame(g, 'N', ('chain1', id(g))), self.fresh_frame(g, 'N', ('chain2', id(g)))
                elems = [it[3](x, one_move(self, it[1], (n1, n2)))]; cert = False
                aux[0] = it
            else: elems = [it[1]]; cert = False
            old = a.iterctx
            for i, v in enumerate(elems):
                y = x
                if it[0] == 'items': a.iterctx = old + ((id(g), i),)
                self.assign(g.target, v, y)
                snap = None
                c2, ok = cert, True
                for t in g.ifs:
                    tv = self.truth(self.ev_quiet(t, y), y)
                    if tv is False: ok = False; break
                    if tv is None: c2 = False
                    if snap is None: snap = dict(y.envs[a.aid]); pc = y.pc; eq = dict(y.eq)
                    try: self.assume(t, True, y)
                    except Dead: ok = False; break
                if ok: go(gens[1:], y, c2)
                if snap is not None: y.envs[a.aid] = snap; y.pc = pc; y.eq = eq
            a.iterctx = old
        a.unc += 1
        try: go(e.generators, st, True)
        finally: a.unc -= 1
        # comprehension variables do not leak
        names = set(n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name))
        for n in names:
            if n in saved: st.envs[a.aid][n] = saved[n]
            else: st.envs[a.aid].pop(n, None)
        h = self.hooks.get('comp')
        if h:
            v = h(self, e, kind, res, exact[0], aux[0], st)
            if v is not None: return v
        if exact[0]:
            if kind == 'dict':
                items = []
                for kv in res: items = [z for z in items if not self.same_key(z[0], kv[0], st)] + [kv]
                return self.new(st, e, 'dict', items=items)
            return self.new(st, e, kind, items=res)
        kk, vv = BOT, BOT
        for r in res:
            if kind == 'dict': kk, vv = self.join(kk, r[0]), self.join(vv, r[1])
            else: vv = self.join(vv, r)
        seq = None
        if aux[0] is not None and len(e.generators) == 1 and not e.generators[0].ifs and kind != 'dict':
            # comprehension over the moves of an encoding
            obj, fwd = aux[0][1], aux[0][2]
            ms = [x for x in vv if isinstance(x, Obj) and self.repo.is_sub(x.cls, 'Move')]
            if ms and len(ms) == len(vv):
                n1, n2 = self.fresh_frame(e.generators[0], 'N', ('chain1', id(e.generators[0]))), self.fresh_frame(e.generators[0], 'N', ('chain2', id(e.generators[0])))
                # moves listed from target end to source end, as Encoding.sequence expects
                if all(x.fr == (n1, n2) for x in ms): seq = ('seq', obj.fr[0], obj.fr[1]) if not fwd else ('rseq', obj.fr[0], obj.fr[1])
                elif all(x.fr == (n2, n1) for x in ms): seq = ('seq', obj.fr[1], obj.fr[0]) if fwd else ('rseq', obj.fr[1], obj.fr[0])
        return self.new(st, e, kind, elem=vv, key=kk, ne=False, aux=seq)

    # ---------------------------------------------------------------- iteration
    def elem_of(self, v, st, node):
        it = self.iterate(v, st, node)
        if it[0] == 'items':
            e = BOT
            for x in it[1]: e = self.join(e, x)
            return e
        return it[1] if it[0] == 'elem' else TOP
    def iterate(self, v, st, node):
        """('items', [values]) | ('elem', value, nonempty) | ('chain', encoding, from_source_end, wrap)."""
        outs = []
        y = self.sole(v) if v else None
        if isinstance(y, Ref) and st.heap[y.oid].kind == 'inst' and self.not_iterable(st.heap[y.oid].cls): self.raise_(st, 'TypeError', node)
        for x in v:
            outs.append(self.iter1(x, st, node))
        if len(outs) == 1: return outs[0]
        if outs and all(o[0] == 'items' for o in outs) and len(set(len(o[1]) for o in outs)) == 1:
            n = len(outs[0][1])
            return ('items', [self.joinall(o[1][i] for o in outs) for i in range(n)])
        chains = [o for o in outs if o[0] == 'chain']
        if chains and len(chains) == len(outs) and len(set((o[1].fr, o[2]) for o in outs)) == 1:
            return chains[0] if chains[0][1].cls == 'Encoding' else next((c for c in chains if c[1].cls == 'Encoding'), chains[0])
        e, ne = BOT, True
        for o in outs:
            if o[0] == 'items':
                for i in o[1]: e = self.join(e, i)
                ne = ne and bool(o[1])
            elif o[0] == 'elem': e = self.join(e, o[1]); ne = ne and o[2]
            else: e = TOP
        return ('elem', e or TOP, ne and bool(outs))
    def joinall(self, vs):
        r = BOT
        for v in vs: r = self.join(r, v)
        return r
    def not_iterable(self, c):
        if c not in self.repo.classes or any(self.repo.find_method(c, n) for n in ('__iter__', '__getitem__')): return False
        return all(b in self.repo.classes or b in ('object', 'ABC') for d in self.repo.mro(c) if d in self.repo.classes for b in self.repo.classes[d].bases)
    def iter1(self, x, st, node):
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.kind == 'inst':
                v = self.call_dunder(x, '__iter__', [], st, node)
                if one(x) == v: return ('elem', TOP, False)
                return self.iterate(v, st, node) if v != TOP else ('elem', TOP, False)
            if r.aux is not None and r.aux[0] == 'chain': return ('chain',) + r.aux[1:]
            if r.items is not None:
                return ('items', [i[0] for i in r.items] if r.kind == 'dict' else list(r.items))
            if r.kind == 'dict': return ('elem', r.key or TOP, r.ne)
            return ('elem', r.elem or TOP, r.ne)
        if isinstance(x, Obj):
            if x.cls in ('Encoding', 'Mapping', 'MappingClass') and len(x.fr) == 2:
                return ('chain', x, False, self.idwrap)
            h = self.hooks.get('iter_obj')
            if h:
                v = h(self, x, st, node)
                if v is not None: return v
            v = self.call_dunder(x, '__iter__', [], st, node)
            return self.iterate(v, st, node) if v != TOP else ('elem', TOP, False)
        if isinstance(x, K) and x.ty == 'str' and len(x.v) <= max(64, self.wide): return ('items', [k(c) for c in x.v])
        if isinstance(x, (Str, K)): return ('elem', STR, False) if isinstance(x, Str) or x.ty == 'str' else ('elem', TOP, False)
        return ('elem', TOP, False)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            a = self.stack[-1]
            sv = None; aid = a.aid
            while sv is None and aid is not None:
                act = self.acts[aid]
                args = getattr(act.node, 'args', None)
                first = args.args[0].arg if args is not None and args.args else None
                if act.cls and first and not isinstance(act.node, ast.Lambda): sv = st.envs[aid].get(first)
                aid = act.parent
            return one(Sup(a.cls, sv or TOP))
        f = self.ev(e.func, st)
        if f == one(Ext('hasattr')): 
            return self.call_ext('hasattr', [self.ev(x, st) for x in e.args], {}, st, e)
        args, star = [], False
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, st), st, x)
                if it[0] == 'items': args += it[1]
                else: args.append(('*', it[1] if it[0] == 'elem' else TOP)); star = True
            else: args.append(self.ev(x, st))
        kw = {}
        for x in e.keywords:
            v = self.ev(x.value, st)
            if x.arg is None: kw['**'] = v
            else: kw[x.arg] = v
        return self.call(f, args, kw, st, e)
    def mk_set(self, st, node, items):
        """The set of these values, when it is certain which of them are equal."""
        keep = []
        for x in items:
            rs = [self.eq_vals(x, y, st) for y in keep]
            if True in rs: continue
            if None in rs: return self.new(st, node, 'set', elem=self.joinall(items), ne=True)
            keep.append(x)
        return self.new(st, node, 'set', items=keep)
    def call(self, f, args, kw, st, node):
        self.calls_seen += 1
        if len(f) == 1: return self.call1(next(iter(f)), args, kw, st, node)
        outs, vals = [], []
        for g in sorted(f, key=repr):
            x = st.copy()
            try:
                v = self.call1(g, args, kw, x, node)
                outs.append(x); vals.append(v)
            except Dead: pass
        if not outs:
            if f: raise Dead()
            return TOP
        a = self.stack[-1] if self.stack else None
        if a is None: return self.joinall(vals)
        acc, av = outs[0], vals[0]
        for x, v in zip(outs[1:], vals[1:]):
            acc.envs[a.aid]['$r'] = av; x.envs[a.aid]['$r'] = v
            acc = self.join_states(acc, x, (id(node), 'call'))
            av = acc.envs[a.aid].pop('$r')
        self.become(st, acc)
        return av
    def call1(self, f, args, kw, st, node):
        if isinstance(f, Fn): return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Cls): return self.construct(f.name, args, kw, st, node)
        if isinstance(f, BM): return self.call_bm(f, args, kw, st, node)
        if isinstance(f, Ext): return self.call_ext(f.name, args, kw, st, node)
        if isinstance(f, (Obj,)):
            return self.call_dunder(f, '__call__', args if not kw else args, st, node) if not kw else self.call(self.getattr_(one(f), '__call__', st, node), args, kw, st, node)
        if isinstance(f, Ref) and st.heap[f.oid].kind == 'inst': return self.call(self.getattr_(one(f), '__call__', st, node), args, kw, st, node)
        if isinstance(f, K) and f.ty == 'NoneType': self.raise_(st, 'TypeError', node)
        return TOP
    def qual(self, f):
        return self.repo.qual.get(f.node)
    def call_fn(self, f, args, kw, st, node):
        q = self.qual(f)
        args = list(args)
        if f.selfv is not None: args = [f.selfv] + args
        c = self.contracts.get(q)
        if c is None and q and f.cls is None:
            m = self.repo.owner.get(f.node)
            if m: c = self.contracts.get(m[0].dotted.split('.')[-1] + '.' + q)
        if c is not None:
            v = c(self, st, f, args, kw, node)
            if v is not None: return v
        if any(isinstance(a, tuple) for a in args) or '**' in kw:
            args = [a for a in args if not isinstance(a, tuple)] if False else args
        if sum(1 for a in self.stack if a.node is f.node) >= (1 if not self.hooks.get('recursion') else self.hooks['recursion']) or len(self.stack) > self.maxdepth: return TOP
        return self.run_function(f, args, kw, st, node)
    def bind(self, f, args, kw, st, node):
        a = f.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        i = 0
        spread = None
        extra = []
        for v in args:
            if isinstance(v, tuple): spread = v[1]; continue
            if i < len(pos): env[pos[i]] = v; i += 1
            else: extra.append(v)
        if a.vararg:
            if spread is not None:
                e = spread
                for x in extra: e = self.join(e, x)
                env[a.vararg.arg] = self.new(st, node, 'tuple', elem=e, ne=bool(extra), sub='va')
            else: env[a.vararg.arg] = self.new(st, node, 'tuple', items=extra, sub='va')
        elif extra: self.raise_(st, 'TypeError', node)
        rest = {}
        for n, v in kw.items():
            if n == '**': continue
            if n in pos or n in [p.arg for p in a.kwonlyargs]: env[n] = v
            else: rest[n] = v
        if a.kwarg: env[a.kwarg.arg] = self.new(st, node, 'dict', items=[(k(n), v) for n, v in rest.items()] if '**' not in kw else None, key=STR if '**' in kw else BOT, elem=TOP if '**' in kw else BOT, sub='kw')
        elif rest and '**' not in kw: self.raise_(st, 'TypeError', node)
        m = self.repo.owner.get(f.node, (None, None))[0]
        for p, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p.arg not in env: env[p.arg] = self.default(m, d, st, f)
        for p in pos + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                if spread is not None: env[p] = spread
                elif '**' in kw: env[p] = TOP
                else: self.raise_(st, 'TypeError', node)
        return env
    def default(self, m, d, st, f):
        if isinstance(d, ast.Constant): return k(d.value)
        if isinstance(d, ast.Lambda): return one(Fn(d, None, f.aid, None))
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub): return k(-d.operand.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set'):
            kind = {'List': 'list', 'Dict': 'dict', 'Set': 'set'}.get(type(d).__name__) or d.func.id
            oid = self.intern(('default', id(d)), 'o')
            if oid not in st.heap: st.heap[oid] = Rec(kind, items=None, elem=TOP, key=TOP, org='global default argument')
            return one(Ref(oid))
        if isinstance(d, (ast.Name, ast.Attribute)) and m: return self.static_ref(m, d)
        return TOP
    def run_function(self, f, args, kw, st, node, top=False):
        if self.stack or self.until is not None: return self.run_function1(f, args, kw, st, node, top)
        if top: return self.patiently(lambda: self.run_function1(f, args, kw, st, node, top))
        n = len(self.sinks)
        try: return self.patiently(lambda: self.run_function1(f, args, kw, st, node, top))
        except (TooMuch, MemoryError):
            del self.sinks[n:]
            self.given_up += 1
            return TOP
    def run_function1(self, f, args, kw, st, node, top=False):
        n = f.node
        env = self.bind(f, args, kw, st, node)
        self.visited.add(n)
        m, cls = self.repo.owner.get(n, (None, None))
        if m is None: return TOP
        if f.cls is not None: cls = f.cls
        ctx = self.ctx() + (id(node),) if self.stack else (id(n),)
        if len(ctx) > 60: return TOP
        aid = self.intern(('act', ctx, id(n)), 'a')
        act = Act(aid, n, cls, m, ctx, f.aid)
        act.is_gen = not isinstance(n, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in self.walk_own(b))
        self.acts[aid] = act
        st.envs[aid] = env
        self.stack.append(act)
        pc0 = st.pc
        try:
            if isinstance(n, ast.Lambda):
                v = self.ev(n.body, st)
                st.pc = pc0
                return v
            x = st.copy()
            fell = False
            try: self.block(n.body, x); fell = True
            except Dead: pass
            if fell: act.returns.append((x, NONE, n))
        finally: self.stack.pop()
        if act.is_gen:
            if not act.returns: raise Dead()
            y = self.merge([r[0] for r in act.returns], (id(node), 'gen'))
            self.become(st, y); st.pc = pc0
            if act.yield_ok() if hasattr(act, 'yield_ok') else all(c for c, _ in act.yields) and len(act.returns) == 1:
                return self.new(st, node, 'iter', items=[v for _, v in act.yields], sub='gen')
            return self.new(st, node, 'iter', elem=self.joinall(v for _, v in act.yields), sub='gen')
        rets = act.returns
        h = self.hooks.get('returns')
        if top: self.last_returns, self.top_aid = list(rets), aid
        if not rets: raise Dead()
        if len(rets) == 1: self.become(st, rets[0][0]); st.pc = pc0 if not top else st.pc; v = rets[0][1]
        else:
            acc, av = rets[-1][0], rets[-1][1]
            caller = self.stack[-1].aid if self.stack else aid
            for y, yv, _ in reversed(rets[:-1]):
                cond = T.conj(y.pc[len(pc0):]) if self.gated else None
                y.envs.setdefault(caller, {})['$r'] = yv; acc.envs.setdefault(caller, {})['$r'] = av
                acc = self.join_states(y, acc, (ctx, 'ret'), cond)
                av = acc.envs[caller].pop('$r')
            self.become(st, acc); st.pc = pc0; v = av
        if not top and not self.keep_env(n): st.envs.pop(aid, None)
        mem = [d for d, _ in self.repo.decorators(n)]
        if 'memoize' in mem: v = self.mark_memo(v, st, node)
        return v
    def keep_env(self, n):
        return any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not n for x in ast.walk(n))
    def mark_memo(self, v, st, node):
        seen = set()
        def mark(v):
            for x in v:
                if isinstance(x, Ref) and x.oid not in seen:
                    seen.add(x.oid)
                    r = st.heap[x.oid]
                    if r.org == 'fresh' and r.kind != 'inst': st.heap[x.oid] = r.copy(org='a remembered result')
                    for i in (r.items or ()):
                        for y in (i if r.kind == 'dict' else (i,)): mark(y)
                    mark(r.elem)
        mark(v)
        return v
    def walk_own(self, n):
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return
        for c in ast.iter_child_nodes(n): yield from self.walk_own(c)
    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        a = self.stack[-1]
        a.yields.append((a.unc == 0, v))
        return NONE
    def e_YieldFrom(self, e, st):
        it = self.iterate(self.ev(e.value, st), st, e)
        a = self.stack[-1]
        if it[0] == 'items':
            for v in it[1]: a.yields.append((a.unc == 0, v))
        else: a.yields.append((False, it[1] if it[0] == 'elem' else TOP))
        return NONE
    def construct(self, cls, args, kw, st, node):
        c = self.contracts.get('new:' + cls)
        if c is None:
            for b in self.repo.mro(cls):
                c = c or self.contracts.get('new:' + b + '+')
        if c is not None:
            v = c(self, st, cls, args, kw, node)
            if v is not None: return v
        if cls not in self.repo.classes: return TOP
        ref = self.alloc(st, node, Rec('inst', cls=cls, fields={}), sub=cls)
        m = self.repo.find_method(cls, '__init__')
        if m:
            self.call_fn(Fn(m[1], ref, None, m[0]), args, kw, st, node)
        elif any(b not in self.repo.classes and b != 'object' for b in self.repo.mro(cls)):
            return TOP
        return ref
