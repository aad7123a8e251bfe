"""A flow-sensitive abstract interpreter for the analysed package, over the domain of dom.py.

It never executes the analysed code: it walks its syntax trees with abstract values, joins at control-flow merges,
iterates loops to a fixpoint, and records *events* (rule, construct) whenever a construct breaks a rule for a value
that is definitely known.  Unknown values (TOP) are silent."""
import live, ast, time, report
from dom import *
import terms as T
from repo import AnalysisError, TooMuch

class Dead(Exception): pass

EXC_PARENTS = {'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'AttributeError': 'Exception', 'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'StopIteration': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'ImportError': 'Exception',
    'Exception': 'BaseException', 'RecursionError': 'RuntimeError'}
def exc_is(n, m):
    while n:
        if n == m: return True
        n = EXC_PARENTS.get(n)
    return False

class Act:
    def __init__(self, aid, node, cls, module, ctx, parent=None):
        self.aid, self.node, self.cls, self.module, self.ctx, self.parent = aid, node, cls, module, ctx, parent
        self.returns, self.loops, self.unc = [], [], 0
        self.yields, self.is_gen = [], False
        self.iterctx = ()
        self.globals_, self.nonlocals = set(), set()

class Interp:
    idwrap = None
    def __init__(self, repo, gated=False, neq=(), contracts=None, fields=None, budget=400000):
        self.repo, self.gated, self.neq = repo, gated, set(frozenset(p) for p in neq)
        self.contracts, self.fields = contracts or {}, fields or {}
        self.events, self._ekeys = [], set()
        self.stack, self.sinks = [], [[]]
        self.acts = {}
        self.steps, self.budget = 0, budget
        self.ids = {}
        self.frames_made = {}
        self.noreport = 0
        self.visited = set(); self.mutations = self.ariths = 0
        self.calls_seen = 0
        self.hooks = {}
        self.maxdepth = 40
        self._mconst, self.patterns, self.matches = {}, {}, []
        self.known, self.asked = None, []  # conditions taken to hold, and those come upon that are not among them
        self.guards = []  # refusals whose condition could not be decided
        self.guard_parts = []  # and the parts of those conditions that could not be

    # ------------------------------------------------------------ utilities
    def intern(self, key, p=''):
        if key not in self.ids: self.ids[key] = f'{p}{len(self.ids)}'
        return self.ids[key]
    def ctx(self): return (self.stack[-1].ctx, self.stack[-1].iterctx) if self.stack else ()
    def event(self, rule, detail, node=None):
        if self.noreport: return
        a = self.stack[-1] if self.stack else None
        where = self.repo.where(a.node) if a and a.node is not None else '?'
        key = (rule, where, detail)
        if key in self._ekeys: return
        self._ekeys.add(key)
        self.events.append({'rule': rule, 'where': where, 'detail': detail, 'line': getattr(node, 'lineno', 0)})
    def fresh_frame(self, node, what='G', key=None):
        return self.intern(('frame', what, key if key is not None else (self.ctx(), id(node))), what + '#')
    epoch = 0
    word_length = None        # the number of moves of every encoding, when a check splits on it
    unroll_while = 12         # how often a loop whose test is decided is unrolled
    wide = 16                 # the longest range whose members are told apart
    unroll_forever = False   # also unroll loops that are only left by break and return
    def alloc(self, st, node, rec, sub=0):
        oid = self.intern(('obj', self.ctx(), id(node), sub, self.epoch), 'o')
        st.heap[oid] = rec
        return one(Ref(oid))
    def new(self, st, node, kind, items=None, elem=BOT, key=BOT, ne=None, sub=0, **kw):
        if items is not None and len(items) > max(40, self.wide):
            e = BOT
            for i in items: e = self.join(e, i)
            ne, items, elem = True, None, e
        return self.alloc(st, node, Rec(kind, tuple(items) if items is not None else None, elem, key, bool(items) if ne is None else ne, **kw), sub)
    def raise_(self, st, name, node):
        self.sinks[-1].append((st.copy(), name, node, tuple(a.node.name if hasattr(a.node, 'name') else '<>' for a in self.stack)))
        raise Dead()
    def may_raise(self, st, name, node):
        self.sinks[-1].append((st.copy(), name, node, ()))
    def tick(self):
        self.steps += 1
        if self.steps > self.budget: raise TooMuch('analysis budget exceeded')
        if not self.steps & 63:
            now = time.monotonic()
            if self.until is not None and now > self.until or now > report.DEADLINE: raise TooMuch('this takes too long to analyse')
    # one request that branches without end must not take the whole analysis with it: what it gives is unknown
    until, spent, patience = None, 0.0, 60.0
    given_up = 0
    def patiently(self, f):
        if self.until is not None: return f()
        t0 = time.monotonic()
        self.until = t0 + max(3.0, min(self.patience, (240 - self.spent) / 2))
        try: return f()
        finally:
            self.until = None
            t = time.monotonic() - t0
            if t > 5: self.spent += t

    # ------------------------------------------------------------ joins
    def join(self, a, b, cond=None):
        if a == b: return a
        if not a: return b
        if not b: return a
        if self.gated and cond is not None:
            ta, tb = self.term(a), self.term(b)
            if ta is not None and tb is not None:
                kinds = set(self.kind_of(x) for x in a | b)
                kind = kinds.pop() if len(kinds) == 1 else ('int' if kinds <= {'int'} else 'alg' if 'float' not in kinds else 'float')
                return num(kind, t=T.ite(cond, ta, tb))
        objs = {}
        for x in a | b:
            if isinstance(x, Obj): objs.setdefault((x.cls, x.fr), []).append(x)
        if any(len(v) > 1 for v in objs.values()):
            s = set(x for x in a | b if not isinstance(x, Obj))
            for (c, f), v in objs.items():
                orgs = sorted(set(x.org for x in v)); syms = set(x.sym for x in v)
                org = orgs[0] if len(orgs) == 1 else next(o for o in orgs if o != 'fresh')
                s.add(Obj(c, f, org, syms.pop() if len(syms) == 1 else None))
            return norm_value(s)
        return norm_value(a | b)
    def kind_of(self, x):
        return x.kind if isinstance(x, Num) else x.ty if isinstance(x, K) else '?'
    def term(self, v):
        """Linear term of a single numeric value."""
        if len(v) != 1: return None
        (x,) = v
        if isinstance(x, K) and x.ty == 'int': return T.const(x.v)
        if isinstance(x, K) and x.ty == 'bool': return T.const(int(x.v))
        if isinstance(x, Num): return x.t
        return None

    def phi_pairs(self, tag):
        """A renaming of pairs of frames to joint frames (anti-unification)."""
        interp = self
        class P:
            def __init__(s): s.table, s.extra = {}, {}
            tag_ = tag
            def pair(s, st1, st2, f, g):
                if f == g: return f
                if f == '?' or g == '?': return '?'
                kk = (f, g)
                if kk not in s.table:
                    if isinstance(tag, tuple) and tag and tag[-1] == 'L':
                        # loop heads: named by the entry frame and order of appearance, so that iteration converges
                        n = sum(1 for q in s.table if q[0] == f)
                        s.table[kk] = interp.intern(('phiL', tag, f, n), 'J')
                    else: s.table[kk] = interp.intern(('phi', tag, f, g), 'J')
                return s.table[kk]
        return P()

    def jval(self, P, s1, s2, a, b, cond=None):
        if a == b: return a
        if not a: return b
        if not b: return a
        fa, fb = [x for x in a if isinstance(x, Obj) and x.fr], [x for x in b if isinstance(x, Obj) and x.fr]
        ga, gb = {}, {}
        for x in fa: ga.setdefault(x.cls, []).append(x)
        for x in fb: gb.setdefault(x.cls, []).append(x)
        frs_a, frs_b = set(x.fr for x in fa), set(x.fr for x in fb)
        out = set(x for x in a | b if not (isinstance(x, Obj) and x.fr) and not isinstance(x, (EdgeA, Num)))
        if len(frs_a) == 1 and len(frs_b) == 1 and len(next(iter(frs_a))) == len(next(iter(frs_b))):
            f1, f2 = next(iter(frs_a)), next(iter(frs_b))
            nf = tuple(P.pair(s1, s2, x, y) for x, y in zip(f1, f2))
            for c in set(ga) | set(gb):
                xs = ga.get(c, []) + gb.get(c, [])
                orgs = set(x.org for x in xs); syms = set(x.sym for x in xs)
                out.add(Obj(c, nf, next(iter(orgs)) if len(orgs) == 1 else sorted(o for o in orgs if o != 'fresh')[0], syms.pop() if len(syms) == 1 and f1 == f2 else None))
        else: out |= set(fa) | set(fb)
        ea, eb = [x for x in a if isinstance(x, EdgeA)], [x for x in b if isinstance(x, EdgeA)]
        if len(ea) == 1 and len(eb) == 1:
            x, y = ea[0], eb[0]
            tg = None if x.tag is None or y.tag is None else P.pair(s1, s2, x.tag, y.tag)
            out.add(EdgeA(tg, x.t if x.t == y.t else None))
        else: out |= set(ea) | set(eb)
        ra, rb = [x for x in a if isinstance(x, Ref)], [x for x in b if isinstance(x, Ref)]
        if len(ra) == 1 and len(rb) == 1 and ra != rb and ra[0].oid in s1.heap and rb[0].oid in s2.heap:
            # two containers holding corresponding objects of two triangulations become one container
            x, y = s1.heap[ra[0].oid], s2.heap[rb[0].oid]
            if self.gated and cond is not None and x.kind == y.kind and x.kind in ('list', 'tuple', 'nd') and x.items is not None and y.items is not None and len(x.items) == len(y.items):
                oid = self.intern(('phiref', P.tag_, ra[0].oid, rb[0].oid), 'o')
                if oid not in P.extra:
                    P.extra[oid] = x
                    P.extra[oid] = self.jrec(P, s1, s2, x, y, cond)
                out -= set(ra) | set(rb); out.add(Ref(oid))
            elif x.kind == y.kind and x.kind in ('list', 'tuple', 'set', 'dict', 'iter') and (x.aux == y.aux is None) and (x.items is None or y.items is None or len(x.items) == len(y.items)):
                fx, fy = self.rec_frames(s1, x), self.rec_frames(s2, y)
                if fx and fy and fx != fy:
                    oid = self.intern(('phiref', P.tag_, ra[0].oid, rb[0].oid), 'o')
                    if oid not in P.extra:
                        P.extra[oid] = x
                        P.extra[oid] = self.jrec(P, s1, s2, x, y, cond)
                    out -= set(ra) | set(rb); out.add(Ref(oid))
        na, nb = [x for x in a if isinstance(x, Num)], [x for x in b if isinstance(x, Num)]
        if self.gated and cond is not None and len(a) == 1 and len(b) == 1 and self.term(a) is not None and self.term(b) is not None:
            return self.join(a, b, cond)
        kb = {y.kind: y for y in nb}
        for x in na:
            y = kb.pop(x.kind, None)
            if y is None: out.add(x)
            else:
                n = join_num(x, y)
                if x.tag is not None and y.tag is not None: n = n._replace(tag=x.tag if x.tag == y.tag else P.pair(s1, s2, x.tag, y.tag) if not {'idx', 'w'} & {x.tag, y.tag} else None if 'idx' in (x.tag, y.tag) else 'w')
                out.add(n)
        out |= set(kb.values())
        return norm_value(out)

    def join_states(self, s1, s2, tag, cond=None):
        if self.until is not None and time.monotonic() > self.until: raise TooMuch('this takes too long to analyse')
        P = self.phi_pairs(tag)
        r = State()
        cp = []
        for x, y in zip(s1.pc, s2.pc):
            if x != y: break
            cp.append(x)
        r.pc = tuple(cp)
        # frame equalities valid in both
        names = set(s1.eq) | set(s2.eq) | set(s1.eq.values()) | set(s2.eq.values())
        groups = {}
        for n in sorted(names, key=str): groups.setdefault((s1.find(n), s2.find(n)), []).append(n)
        for g in groups.values():
            for n in g[1:]: r.union(g[0], n)
        for aid in s1.envs:
            if aid not in s2.envs: r.envs[aid] = dict(s1.envs[aid]); continue
            e1, e2 = s1.envs[aid], s2.envs[aid]
            r.envs[aid] = {n: (self.jval(P, s1, s2, e1[n], e2[n], cond) if n in e1 and n in e2 else e1.get(n, e2.get(n))) for n in list(e1) + [m for m in e2 if m not in e1]}
        for aid in s2.envs:
            if aid not in s1.envs: r.envs[aid] = dict(s2.envs[aid])
        for oid in s1.heap:
            if oid not in s2.heap: r.heap[oid] = s1.heap[oid]; continue
            x, y = s1.heap[oid], s2.heap[oid]
            r.heap[oid] = x if x is y or x == y else self.jrec(P, s1, s2, x, y, cond)
        for oid in s2.heap:
            if oid not in s1.heap: r.heap[oid] = s2.heap[oid]
        r.heap.update(P.extra)
        return r
    def rec_frames(self, st, rec, depth=0):
        out = set()
        for v in ([rec.elem, rec.key] + [y for i in (rec.items or ()) for y in (i if rec.kind == 'dict' else (i,))]):
            for x in v:
                if isinstance(x, Obj): out |= set(x.fr)
                elif isinstance(x, Ref) and depth < 3 and x.oid in st.heap: out |= self.rec_frames(st, st.heap[x.oid], depth + 1)
        return out
    def summary(self, rec):
        """(key, elem) joined over all items."""
        if rec.items is None: return rec.key, rec.elem
        kk, e = BOT, BOT
        for it in rec.items:
            if rec.kind == 'dict': kk, e = self.join(kk, it[0]), self.join(e, it[1])
            else: e = self.join(e, it)
        return kk, e
    def jrec(self, P, s1, s2, x, y, cond=None):
        org = x.org if x.org == y.org else (x.org if x.org != 'fresh' else y.org)
        j = lambda a, b: self.jval(P, s1, s2, a, b, cond)
        if x.kind == 'inst':
            f = {n: (j(x.fields[n], y.fields[n]) if n in x.fields and n in y.fields else x.fields.get(n, y.fields.get(n))) for n in set(x.fields) | set(y.fields)}
            return x.copy(fields=f, org=org)
        aux = x.aux if x.aux == y.aux else None
        if x.aux is not None and y.aux is not None and x.aux[0] == y.aux[0] == 'seq':
            aux = ('seq', P.pair(s1, s2, x.aux[1], y.aux[1]), P.pair(s1, s2, x.aux[2], y.aux[2]))
        if x.items is not None and y.items is not None and len(x.items) == len(y.items):
            if x.kind == 'dict':
                if [i[0] for i in x.items] == [i[0] for i in y.items]:
                    return x.copy(items=tuple((a[0], j(a[1], b[1])) for a, b in zip(x.items, y.items)), org=org, aux=aux)
            else: return x.copy(items=tuple(j(a, b) for a, b in zip(x.items, y.items)), org=org, aux=aux)
        (k1, e1), (k2, e2) = self.summary(x), self.summary(y)
        return x.copy(items=None, elem=j(e1, e2), key=j(k1, k2), ne=x.nonempty() and y.nonempty() if hasattr(x, 'nonempty') else (bool(x.items) or x.ne) and (bool(y.items) or y.ne), org=org, aux=aux)

    def rename_frames(self, st, sub):
        def rv(v):
            if not any((isinstance(x, Obj) and any(f in sub for f in x.fr)) or (isinstance(x, (EdgeA, Num)) and x.tag in sub) for x in v): return v
            return frozenset(Obj(x.cls, tuple(sub.get(f, f) for f in x.fr), x.org, x.sym) if isinstance(x, Obj) else x._replace(tag=sub.get(x.tag, x.tag)) if isinstance(x, (EdgeA, Num)) else x for x in v)
        for e in st.envs.values():
            for n in list(e): e[n] = rv(e[n])
        for o, r in list(st.heap.items()):
            st.heap[o] = r.copy(items=None if r.items is None else tuple((rv(i[0]), rv(i[1])) if r.kind == 'dict' else rv(i) for i in r.items), elem=rv(r.elem), key=rv(r.key),
                fields=None if r.fields is None else {n: rv(v) for n, v in r.fields.items()}, aux=r.aux if r.aux is None or r.aux[0] != 'seq' else ('seq', sub.get(r.aux[1], r.aux[1]), sub.get(r.aux[2], r.aux[2])))
        st.eq = {sub.get(a, a): sub.get(b, b) for a, b in st.eq.items() if sub.get(a, a) != sub.get(b, b)}

    @staticmethod
    def become(st, o): st.envs, st.heap, st.eq, st.pc = o.envs, o.heap, o.eq, o.pc

    def merge(self, states, tag, cond=None):
        """Join a list of states (pairwise, first with last via cond when there are exactly two)."""
        r = states[0]
        for i, s in enumerate(states[1:]): r = self.join_states(r, s, (tag, i), cond)
        return r

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body: self.stmt(s, st)
    def stmt(self, s, st):
        self.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: return
        m(s, st)
    def s_Expr(self, s, st): self.ev(s.value, st)
    def s_Pass(self, s, st): pass
    def s_Import(self, s, st):
        for a in s.names: self.setname(st, a.asname or a.name.split('.')[0], one(Mod(a.name if a.asname else a.name.split('.')[0])) if a.name.split('.')[0] in ('curver',) else one(Ext(a.name)))
    def s_ImportFrom(self, s, st):
        for a in s.names: self.setname(st, a.asname or a.name, self.resolve_from((s.module or ''), a.name))
    def s_Global(self, s, st): self.stack[-1].globals_.update(s.names)
    def s_Nonlocal(self, s, st): self.stack[-1].nonlocals.update(s.names)
    def s_FunctionDef(self, s, st):
        self.setname(st, s.name, one(Fn(s, None, self.stack[-1].aid, self.stack[-1].cls)))
    def s_ClassDef(self, s, st): self.setname(st, s.name, TOP)
    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.stack[-1].returns.append((st.copy(), v, s))
        raise Dead()
    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets: self.assign(t, v, st)
    def s_AnnAssign(self, s, st):
        if s.value is not None: self.assign(s.target, self.ev(s.value, st), st)
    def s_AugAssign(self, s, st):
        cur = self.ev(self._load(s.target), st)
        r = self.ev(s.value, st)
        # in-place on lists mutates the object
        v = BOT
        for x in cur:
            if isinstance(x, Ref) and st.heap[x.oid].kind in ('list', 'set', 'dict', 'nd'):
                rec = st.heap[x.oid]
                self.mutate(st, x.oid, s)
                if rec.kind == 'list' and isinstance(s.op, ast.Add): self.list_extend(st, x.oid, r, s)
                elif rec.kind == 'set' and isinstance(s.op, ast.BitOr): self.list_extend(st, x.oid, r, s)
                v = self.join(v, one(x))
            else: v = self.join(v, self.binop(s.op, one(x), r, st, s))
        self.assign(s.target, v, st)
    def _load(self, t):
        n = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields if f != 'ctx'}, ctx=ast.Load()), t)
        return n
    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                for x in self.ev(t.value, st):
                    if isinstance(x, Ref):
                        self.mutate(st, x.oid, t)
                        kk, e = self.summary(st.heap[x.oid]); st.heap[x.oid] = st.heap[x.oid].copy(items=None, key=kk, elem=e, ne=False)
    def s_Assert(self, s, st):
        sa = st.copy()
        try:
            self.assume(s.test, False, sa)
            self.may_raise(sa, 'AssertionError', s)
            if self.truth(self.ev_quiet(s.test, st), st) is None: self.guard(s.test, st)
        except Dead: pass
        self.assume(s.test, True, st)
    def s_Raise(self, s, st):
        name = 'Exception'
        if s.exc is None: name = 'Reraise'
        else:
            v = self.ev(s.exc, st)
            for x in v:
                if isinstance(x, Exc): name = x.name
                elif isinstance(x, Ext): name = x.name
        self.raise_(st, name, s)
    def guard(self, test, st):
        self.guards.append((self.stack[-1].node, test))
        def parts(t):
            if isinstance(t, ast.BoolOp):
                for v in t.values: yield from parts(v)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): yield from parts(t.operand)
            else: yield t
        for t in parts(test):
            try: v = self.truth(self.ev_quiet(t, st.copy()), st)
            except Dead: v = None
            if v is None: self.guard_parts.append((self.stack[-1].node, t))
    def s_If(self, s, st):
        outs = []
        cond = None
        uncertain = self.truth(self.ev_quiet(s.test, st), st) is None
        if uncertain: self.stack[-1].unc += 1
        for truth, body in ((True, s.body), (False, s.orelse)):
            x = st.copy()
            try:
                c = self.assume(s.test, truth, x)
                if truth: cond = c
                self.block(body, x)
                outs.append(x)
            except Dead:
                if uncertain and body and isinstance(body[-1], ast.Raise): self.guard(s.test, st)
        if uncertain: self.stack[-1].unc -= 1
        if not outs: raise Dead()
        if len(outs) == 1: self.become(st, outs[0])
        else: self.become(st, self.join_states(outs[0], outs[1], id(s), cond))
    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None: self.assign(i.optional_vars, TOP, st)
        self.block(s.body, st)
    def settled(self, body, st):
        """Whether a body that only looks positions up was evaluated to constants, so that it cannot raise."""
        for b in body:
            if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)): return False
            for n in ast.walk(b.value):
                if isinstance(n, ast.Call):
                    if not (isinstance(n.func, ast.Attribute) and n.func.attr == 'index' and isinstance(n.func.value, ast.Name)): return False
                elif not isinstance(n, (ast.Name, ast.Constant, ast.IfExp, ast.Compare, ast.Attribute, ast.cmpop, ast.expr_context)): return False
            v = self.ev(b.targets[0], st.copy())
            if len(v) != 1 or not isinstance(next(iter(v)), K): return False
        return True
    def has_next(self, body, st):
        """Whether the body only takes the next item of an iterator that is known to have one."""
        if len(body) != 1 or not isinstance(body[0], ast.Assign) or not all(isinstance(t, ast.Name) for t in body[0].targets): return False
        c = body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'next' and len(c.args) == 1 and not c.keywords and isinstance(c.args[0], ast.Name)): return False
        v = self.ev(c.args[0], st.copy())
        x = self.sole(v) if len(v) == 1 else None
        return isinstance(x, Ref) and st.heap[x.oid].kind == 'iter' and bool(st.heap[x.oid].items) and not self.stack[-1].unc
    def s_Try(self, s, st):
        sink = []
        self.sinks.append(sink)
        start = st.copy()
        outs = []
        x = st.copy()
        first = self.has_next(s.body, st)
        has_call = any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.For, ast.Raise, ast.Assign)) and not isinstance(n, ast.Raise) for b in s.body for n in ast.walk(b))
        try:
            try:
                self.block(s.body, x); body_ok = True
            except Dead: body_ok = False
        finally: self.sinks.pop()
        end = x
        if has_call and body_ok and not sink and (first or self.settled(s.body, x)): has_call = False
        if body_ok:
            try:
                self.block(s.orelse, x); outs.append(x)
            except Dead: pass
        # exceptions
        pend = list(sink)
        self.stack[-1].unc += 1
        for h in s.handlers:
            names = None
            if h.type is not None:
                tv = self.ev(h.type, st.copy())
                names = []
                for a in tv:
                    if isinstance(a, Ext): names.append(a.name)
                    elif isinstance(a, Ref) and start.heap.get(a.oid) is None: names.append('Exception')
                    else: names.append('Exception')
                if isinstance(h.type, ast.Tuple): names = [e.id for e in h.type.elts if isinstance(e, ast.Name)]
            matched = [p for p in pend if names is None or any(exc_is(p[1], n) for n in names)]
            pend = [p for p in pend if p not in matched]
            entries = [m[0] for m in matched]
            if has_call and (not matched or body_ok): entries += [start] + ([end] if body_ok else [])
            if not entries: continue
            hs = self.merge([e.copy() for e in entries], (id(h), 'h'))
            if h.name: self.setname(hs, h.name, frozenset(Exc(p[1]) for p in matched) or one(Exc((names or ['Exception'])[0])))
            try:
                self.block(h.body, hs); outs.append(hs)
            except Dead: pass
        self.stack[-1].unc -= 1
        self.sinks[-1].extend(pend)
        if s.finalbody:
            for o in outs:
                try: self.block(s.finalbody, o)
                except Dead: outs = [z for z in outs if z is not o]
            if not outs:
                try: self.block(s.finalbody, start)
                except Dead: pass
        if not outs: raise Dead()
        self.become(st, self.merge(outs, id(s)))
    def s_Break(self, s, st): self.stack[-1].loops[-1]['brk'].append(st.copy()); raise Dead()
    def s_Continue(self, s, st): self.stack[-1].loops[-1]['cont'].append(st.copy()); raise Dead()

    def run_body(self, body, st):
        """One loop iteration: (back states, break states)."""
        a = self.stack[-1]
        a.loops.append({'brk': [], 'cont': []})
        back = []
        try:
            self.block(body, st); back.append(st)
        except Dead: pass
        l = a.loops.pop()
        return back + l['cont'], l['brk']
    def s_For(self, s, st):
        it = self.iterate(self.ev(s.iter, st), st, s)
        a = self.stack[-1]
        if it[0] == 'items':
            exits, brks = [st.copy()], []
            for i, v in enumerate(it[1]):
                cur = exits
                if not cur: break
                x = self.merge(cur, (id(s), 'i', i))
                old = a.iterctx; a.iterctx = old + ((id(s), i),)
                if brks: a.unc += 1
                try:
                    self.assign(s.target, v, x)
                    exits, b = self.run_body(s.body, x)
                finally:
                    a.iterctx = old
                    if brks: a.unc -= 1
                brks += b
            outs = brks
            if exits:
                x = self.merge(exits, (id(s), 'x'))
                try: self.block(s.orelse, x); outs = outs + [x]
                except Dead: pass
            if not outs: raise Dead()
            self.become(st, self.merge(outs, (id(s), 'o')))
            return
        def setup(x):
            if it[0] == 'chain':
                _, obj, fwd, wrap = it
                cur = next(iter(x.envs[a.aid][chain])).fr[0]
                n = self.fresh_frame(s, 'N')
                mv = one_move(self, obj, (cur, n) if fwd else (n, cur))
                self.assign(s.target, wrap(x, mv), x)
                return n
            self.assign(s.target, it[1], x)
        chain = '$chain%d' % id(s)
        def post(x, n):
            if it[0] == 'chain': x.envs[a.aid][chain] = one(Obj('Triangulation', (n,), 'shared', None))
        if it[0] == 'chain':
            st.envs[a.aid][chain] = one(Obj('Triangulation', (it[1].fr[0 if it[2] else 1],), 'shared', None))
        def test_true(x): return setup(x)
        self.loop(s, st, test_true, None, post, ne=(it[0] == 'chain' or it[2]), final=((it[1].fr[1 if it[2] else 0], chain) if it[0] == 'chain' else None))
    def s_While(self, s, st):
        def enter(x): self.assume(s.test, True, x)
        def leave(x): self.assume(s.test, False, x)
        # try to unroll while the test is decided
        a = self.stack[-1]
        n = 0
        outs = []
        old = a.iterctx
        while n < self.unroll_while:
            t = self.truth(self.ev_quiet(s.test, st), st)
            if t is not True or isinstance(s.test, ast.Constant) and not self.unroll_forever: break
            x = st.copy(); a.iterctx = old + ((id(s), n),)
            try: back, brk = self.run_body(s.body, x)
            finally: a.iterctx = old
            outs += brk
            if not back:
                if not outs: raise Dead()
                self.become(st, self.merge(outs, (id(s), 'w'))); return
            self.become(st, self.merge(back, (id(s), 'wb', n)))
            n += 1
        if n < self.unroll_while and t is False:
            outs.append(st.copy())
            self.become(st, self.merge(outs, (id(s), 'w'))); return
        if n >= self.unroll_while: outs = []
        try: self.loop(s, st, enter, leave, None)
        except Dead:
            if not outs: raise
            self.become(st, self.merge(outs, (id(s), 'w'))); return
        if outs: self.become(st, self.merge(outs + [st.copy()], (id(s), 'w2')))

    def loop(self, s, st, enter, leave, post, ne=False, final=None):
        a = self.stack[-1]
        a.unc += 1
        dead = live.dead_at_head(s, a.node)
        for n in dead: st.envs[a.aid].pop(n, None)
        head = st.copy()
        pre = st.copy()
        brks, back = [], None
        try:
            for i in range(10):
                x = head.copy()
                try:
                    n = enter(x)
                    backs, brks = self.run_body(s.body, x)
                    if post:
                        for b in backs: post(b, n)
                except Dead: backs, brks = [], []
                if not backs: back = None; break
                back = self.merge(backs, (id(s), 'b'))
                for n in dead: back.envs[a.aid].pop(n, None)
                self.collect(back, pre)
                new = self.join_states(pre, back, (self.ctx(), id(s), 'L'))
                if i >= 2: new = self.widen_nums(head, new)
                if i >= 7: new = self.widen(head, new)
                if self.same_state(new, head): break
                head = new
        finally: a.unc -= 1
        exits = []
        sources = ([] if ne else [pre if back is None else head]) if not ne else ([back] if back is not None else [])
        for x in sources:
            if x is None: continue
            x = x.copy()
            try:
                if leave: leave(x)
                if final:
                    f = next(iter(x.envs[a.aid][final[1]])).fr[0]
                    self.rename_frames(x, {f: final[0]})
                self.block(s.orelse, x)
                exits.append(x)
            except Dead: pass
        exits += brks
        if not exits: raise Dead()
        self.become(st, self.merge(exits, (id(s), 'e')))
    def same_state(self, a, b):
        return a.envs == b.envs and a.heap == b.heap
    def collect(self, st, keep):
        """Forget the containers that were made since `keep` and that nothing refers to any more."""
        todo = [x.oid for e in st.envs.values() for v in e.values() for x in v if isinstance(x, Ref)] + [o for o in st.heap if o in keep.heap]
        seen = set()
        def refs(v):
            for x in v:
                if isinstance(x, Ref): todo.append(x.oid)
                elif isinstance(x, (Fn, BM, Sup)):
                    for y in x:
                        if isinstance(y, frozenset): refs(y)
                        elif isinstance(y, Ref): todo.append(y.oid)
        for e in st.envs.values():
            for v in e.values(): refs(v)
        while todo:
            o = todo.pop()
            if o in seen or o not in st.heap: continue
            seen.add(o); r = st.heap[o]
            for v in [r.elem, r.key] + [y for i in (r.items or ()) for y in (i if r.kind == 'dict' else (i,))] + list((r.fields or {}).values()): refs(v)
            if r.aux is not None:
                for y in r.aux:
                    if isinstance(y, frozenset): refs(y)
                    else: todo += [o for o in (getattr(y, 'oid', None), getattr(y, 'key', None)) if isinstance(o, str)]
        for o in list(st.heap):
            if o not in seen: del st.heap[o]
    def widen_nums(self, old, new):
        def wv(o, v):
            if o == v or not o: return v
            ks = {x.kind: x for x in o if isinstance(x, Num)}
            out = set()
            for x in v:
                y = ks.get(x.kind) if isinstance(x, Num) else None
                if y is not None: x = x._replace(lo=x.lo if x.lo == y.lo else None, hi=x.hi if x.hi == y.hi else None, t=x.t if x.t == y.t else None)
                elif isinstance(x, Num) or isinstance(x, K) and x.ty in ('int', 'float') and x not in o:
                    if isinstance(x, K) or x.kind not in ks:
                        kind = x.ty if isinstance(x, K) else x.kind
                        c = [z.v for z in o | v if isinstance(z, K) and z.ty == kind]
                        lo = x.v if isinstance(x, K) else x.lo
                        x = Num(kind, min([0] + c) if lo is not None and lo >= min(c or [0]) else None, None, None if isinstance(x, K) else x.tag, None)
                out.add(x)
            if any(isinstance(x, Num) and x.hi is None for x in out):
                out = set(x for x in out if not (isinstance(x, K) and x.ty in ('int', 'float') and any(isinstance(z, Num) and z.kind == x.ty and z.hi is None and (z.lo is None or z.lo <= x.v) for z in out)))
            return norm_value(out)
        for aid, e in new.envs.items():
            for n, v in e.items():
                if aid in old.envs and n in old.envs[aid]: e[n] = wv(old.envs[aid][n], v)
        return new
    def widen(self, old, new):
        for aid, e in new.envs.items():
            for n, v in e.items():
                if aid in old.envs and old.envs[aid].get(n) != v: e[n] = TOP if not n.startswith('$') else v
        for o, r in new.heap.items():
            if o in old.heap and old.heap[o] != r: new.heap[o] = r.copy(items=None, elem=TOP, key=TOP, fields={n: TOP for n in r.fields} if r.fields else r.fields)
        return new

    # ------------------------------------------------------------ names and assignment
    def setname(self, st, name, v): st.envs[self.stack[-1].aid][name] = v
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            a = self.stack[-1]
            if t.id in a.globals_:
                self.event('global', f'assignment to module-level name {t.id}', t); return
            if t.id in a.nonlocals:
                p = a.parent
                while p is not None:
                    if t.id in st.envs.get(p, {}): st.envs[p][t.id] = v; return
                    p = self.acts[p].parent if p in self.acts else None
            self.setname(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            known = self.known_items(v, st) if star else None
            if known is not None and len(known) >= n - 1:
                i, rest = star[0], len(known) - (n - 1)
                self.used(v, st)
                for e, p in zip(t.elts[:i], known[:i]): self.assign(e, p, st)
                self.assign(t.elts[i].value, self.new(st, t.elts[i], 'list', items=known[i:i + rest]), st)
                for e, p in zip(t.elts[i + 1:], known[i + rest:]): self.assign(e, p, st)
                return
            if star: parts = [self.elem_of(v, st, t)] * n
            else: parts = self.unpack(v, n, st, t)
            for e, p in zip(t.elts, parts):
                if isinstance(e, ast.Starred): self.assign(e.value, self.new(st, e, 'list', elem=p), st)
                else: self.assign(e, p, st)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            for x in self.ev(t.value, st): self.setattr_(x, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            for x in base: self.setitem(x, idx, v, st, t, len(base) == 1)
    def unpack(self, v, n, st, node):
        outs = [BOT] * n
        if not v: return outs
        for x in v:
            it = self.iterate(one(x), st, node)
            if it[0] == 'items':
                if len(it[1]) != n:
                    if len(v) == 1: self.raise_(st, 'ValueError', node)
                    continue
                outs = [self.join(o, y) for o, y in zip(outs, it[1])]
            elif it[0] == 'chain': outs = [TOP] * n
            else: outs = [self.join(o, it[1]) for o in outs]
        return [o or TOP for o in outs]
    def setattr_(self, x, name, v, st, node):
        if isinstance(x, Ref):
            r = st.heap[x.oid]
            if r.kind == 'inst':
                if r.org != 'fresh' and name != '_cache': self.event('mut', f'attribute {name} of {r.cls} ({r.org}) is assigned', node)
                f = dict(r.fields); f[name] = v
                st.heap[x.oid] = r.copy(fields=f)
        elif isinstance(x, Obj):
            if name == '_cache':
                h = self.hooks.get('cache_assign')
                if h: h(x, v, st, node)
            elif x.org != 'fresh': self.event('mut', f'attribute {name} of {x.cls} ({x.org}) is assigned', node)
        elif isinstance(x, Cls): self.event('mut', f'class attribute {x.name}.{name} is assigned', node); self.event('global', f'class attribute {x.name}.{name} is assigned', node)
        elif isinstance(x, (Mod, Ext)): self.event('global', f'module attribute {name} is assigned', node)
        elif isinstance(x, Fn): self.event('global', f'function attribute {name} is assigned', node)
    def mutate(self, st, oid, node):
        self.mutations += 1
        r = st.heap[oid]
        if r.org != 'fresh':
            self.event('mut', f'{r.kind} that came from {r.org} is modified in place', node)
            if r.org.startswith('global'): self.event('global', f'module-level {r.kind} is modified', node)
    def setitem(self, x, idx, v, st, node, sole=True):
        if not isinstance(x, Ref):
            if isinstance(x, Obj):
                m = self.repo.find_method(x.cls, '__setitem__')
                if m is None and sole and x.cls in self.repo.classes: self.event('attr', f'{x.cls} does not support item assignment', node)
            return
        self.mutate(st, x.oid, node)
        r = st.heap[x.oid]
        if r.kind == 'inst': return
        i = self.const_index(idx)
        if r.kind in ('list', 'nd') and r.items is not None and i is not None and -len(r.items) <= i < len(r.items):
            l = list(r.items); l[i] = v
            st.heap[x.oid] = r.copy(items=tuple(l))
        elif r.kind == 'dict' and r.items is not None and len(idx) == 1 and self.decided_key(idx, [it[0] for it in r.items], st):
            l = [it for it in r.items]
            for j, it in enumerate(l):
                if it[0] == idx: l[j] = (idx, v); break
                if self.same_key(it[0], idx, st): l[j] = (it[0], v); break
            else:
                if self.stack[-1].unc and len(l) > 30: return
                l.append((idx, v))
            st.heap[x.oid] = r.copy(items=tuple(l))
        else:
            kk, e = self.summary(r)
            # labels collected over time name edges that survive the flips made in between
            if r.kind == 'dict': idx = frozenset(y._replace(tag=None) if isinstance(y, EdgeA) else y for y in idx)
            st.heap[x.oid] = r.copy(items=None, elem=self.join(e, v), key=self.join(kk, idx) if r.kind == 'dict' else BOT, ne=True, aux=('weak',) if r.kind != 'dict' else r.aux)
    def same_key(self, a, b, st):
        """Whether two keys certainly are the same key."""
        if a == b: return self.exact_key(a) or self.inst_key(a, st)
        return bool(self.inst_key(a, st) and self.inst_key(b, st) and self.eq_vals(a, b, st))
    def inst_key(self, v, st):
        if 'inst_eq' not in self.hooks or len(v) != 1: return False
        (x,) = v
        return isinstance(x, Ref) and x.oid in st.heap and st.heap[x.oid].kind == 'inst'
    def decided_key(self, v, keys, st):
        """Whether v is known well enough to be looked up among the keys."""
        return self.exact_key(v) or self.inst_key(v, st) and all(self.eq_vals(v, q, st) is not None for q in keys)
    def exact_key(self, v):
        (x,) = v if len(v) == 1 else (None,)
        return isinstance(x, K) or (isinstance(x, (EdgeA, Num)) and x.t is not None)
    def const_index(self, v):
        if len(v) == 1:
            (x,) = v
            if isinstance(x, K) and x.ty in ('int', 'bool'): return int(x.v)
            if isinstance(x, Num) and T.is_const(x.t): return x.t[2]
            if isinstance(x, Num) and x.lo is not None and x.lo == x.hi: return x.lo
        return None
    def list_extend(self, st, oid, v, node):
        r = st.heap[oid]
        it = self.iterate(v, st, node)
        if it[0] == 'items' and r.items is not None and not (self.stack[-1].unc and len(r.items) > self.wide):
            st.heap[oid] = r.copy(items=r.items + tuple(it[1]))
        else:
            e = TOP
            if it[0] == 'items':
                e = BOT
                for y in it[1]: e = self.join(e, y)
            elif it[0] == 'elem': e = it[1]
            kk, e0 = self.summary(r)
            st.heap[oid] = r.copy(items=None, elem=self.join(e0, e), ne=bool(r.items) or r.ne)

def one_move(interp, obj, fr):
    classes = interp.hooks.get('move_classes', ('Isometry', 'EdgeFlip', 'MultiEdgeFlip', 'Twist', 'HalfTwist'))
    if obj.cls == 'Encoding': classes = classes + interp.hooks.get('nonflip_classes', ('Crush', 'Lift', 'LinearTransformation'))
    return frozenset(Obj(c, fr, 'shared', None) for c in classes)
