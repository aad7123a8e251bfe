"""C12: flips transform triangulations, weights and homology as a flip does, the inverse move undoes them, and the single
flip, the simultaneous flip and the matrix form agree.

The operations are interpreted abstractly on triangulations given by their gluing pattern (labels are constants, weights
are symbols), which yields for every coordinate of the result a gated linear term in the old coordinates.  These terms are
compared, on all cells of the polyhedral subdivision they induce, with a reference built from the normal arcs of a square."""
from fractions import Fraction as Q
from dom import *
import terms as T
from repo import AnalysisError
from model import *
from report import parallel

Z = T.const(0)
def mx(*x): return T.tmax(x)
def mn(*x): return T.tmin(x)
def h(x): return T.scale(x, Q(1, 2))
def REF(a, b, c, d, e):
    """The weight of the new diagonal of a square with sides a, b, c, d and diagonal e, (a, b, e) and (c, d, e) being its
    triangles: count for each triangle the normal arcs cutting off each corner and the ends at each corner, and match them
    along the old diagonal."""
    s, ad = T.sub, T.add
    p = lambda x: mx(x, Z)
    A, B, C, D, Ee = map(p, (a, b, c, d, e))
    corner = lambda u, v, o: mx(Z, mn(h(s(ad(u, v), o)), u, v))
    term = lambda u, v, o: p(s(s(u, v), o))
    x, y, z = corner(B, Ee, A), corner(A, Ee, B), corner(A, B, Ee); t, ta, tb = term(Ee, A, B), term(A, B, Ee), term(B, A, Ee)
    x2, y2, z2 = corner(C, Ee, D), corner(D, Ee, C), corner(C, D, Ee); t2, tc, td = term(Ee, C, D), term(C, D, Ee), term(D, C, Ee)
    r = Z
    for q in (z, ta, tb, z2, tc, td, p(s(s(x, x2), t2)), p(s(s(x2, x), t)), p(T.scale(e, -1))): r = ad(r, q)
    return s(r, p(s(mn(ad(x, t), ad(x2, t2)), mx(x, x2))))
def norm(l): return max(l, ~l)
def sign(l): return 1 if l >= 0 else -1
def span_contains(rows, v):
    """Whether the vector v (over the rationals) is a combination of rows."""
    rows = [dict(r) for r in rows]
    v = dict(v)
    while rows:
        r = rows.pop()
        if not r: continue
        p = next(iter(r)); q = r[p]
        def red(w):
            if p in w:
                f = Q(w[p]) / q
                for s, c in r.items():
                    w[s] = w.get(s, 0) - f * c
                    if w[s] == 0: del w[s]
            return w
        rows = [red(w) for w in rows]; v = red(v)
    return not v

DECIDED = {}
class Flips:
    def __init__(self, repo, rep, name, tris):
        self.repo, self.rep, self.name, self.tris = repo, rep, name, tris
        self.I = Model(repo, gated=True, budget=20000000)
        self.st = State()
        self.zeta = len(tris) * 3 // 2
        self.cache = {}
    def undecided(self, what): self.rep.count('undecided'); self.rep.note(f'{self.name}: {what}')
    def found(self, where, detail): self.rep.finding('flip', where, f'{detail} (on the {self.name} pattern)')
    def call(self, v, name, args, where, what):
        """The value of a call that is allowed (a refusal of one that is, is a finding)."""
        try: r = self.I.invoke(self.st, v, name, args)
        except AnalysisError as e: raise
        if r is None: self.found(where, f'{what} never returns'); return None
        return r
    # ---- moves
    def move(self, enc, where, what):
        s = self.I.field_of(self.st, enc, 'sequence') if enc else None
        its = self.I.items(self.st, s) if s else None
        if its is None or len(its) != 1: self.undecided(f'{what}: the moves of the encoding are not known'); return None
        return its[0]
    def cls(self, m):
        x = self.I.sole(m)
        return self.st.heap[x.oid].cls if isinstance(x, Ref) and self.st.heap[x.oid].kind == 'inst' else None
    def shapes(self, m, where, what):
        ss = [self.I.shape_of(self.st, self.I.field_of(self.st, m, n)) for n in ('source_triangulation', 'target_triangulation')]
        if None in ss: self.undecided(f'{what}: a triangulation is not known'); return None
        return canon(ss[0]), canon(ss[1])
    def good_target(self, src, tgt, labels, where, what):
        keep = [t for t in src if not any(l in t or ~l in t for l in labels)]
        want = list(keep)
        opts = [canon(keep)]
        opts = [keep]
        corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in src for i in range(3)}
        for l in labels:
            _, a, b = corner[l]; _, c, d = corner[~l]
            opts = [o + new for o in opts for new in ([(l, d, a), (~l, b, c)], [(~l, d, a), (l, b, c)])]
        self.rep.count('flipped triangulations')
        if tgt not in [canon(o) for o in opts]: self.found(where, f'{what} does not replace the two triangles of each edge by those on the other diagonal'); return False
        return True
    # ---- actions
    def lamination(self, m, src, tgt, labels, where, what):
        I, st = self.I, self.st
        w = I.lamination(st, src, key=('w', src), cls='IntegralLamination', kind='frac')
        W = [T.sym((('w', src), i)) for i in range(self.zeta)]
        r = self.call(m, 'apply_lamination', [w], where, f'{what}: the action on laminations')
        if r is None: return
        g = I.field_of(st, r, 'geometric')
        its = I.items(st, g) if g else None
        tr = I.shape_of(st, I.field_of(st, r, 'triangulation')) if g else None
        if its is None or len(its) != self.zeta or tr is None: return self.undecided(f'{what}: the image of a lamination is not known')
        self.rep.count('actions on laminations')
        if canon(tr) != tgt: self.found(where, f'{what}: the image of a lamination is on another triangulation'); return
        refs = {norm(l): REF(*[W[norm(x)] for x in square(src, l)]) for l in labels}
        for i in range(self.zeta):
            t = I.term(its[i])
            ref = refs.get(i, W[i])
            if t is None: self.undecided(f'{what}: weight {i} of the image is not known'); continue
            try:
                d = self.compare(t, ref, src, [i] + [norm(x) for l in sorted(labels, key=lambda l: norm(l) != i) for x in square(src, l)])
            except T.Cannot as x: self.undecided(f'{what}: weight {i}: {x}'); continue
            self.rep.count('weights decided')
            if d: self.found(where, f'{what}: the weight of {"the flipped" if i in refs else "another"} edge is not that of the same lamination, for instance where ' + self.at(d[0], src, labels)); return
    def compare(self, t, ref, src, order):
        """A point where two terms differ, or None; terms that are the same up to the names of edges are compared once."""
        if t == ref: return None
        if T.size(t) >= 20000: raise T.Cannot('the term is too large')
        syms = T.base_symbols(t) | T.base_symbols(ref)
        pos = {(('w', src), i): ('w', j) for j, i in reversed(list(enumerate(order)))}
        if all(s in pos for s in syms):
            key = (T.rename(t, pos.get), T.rename(ref, pos.get))
            if key not in DECIDED:
                C = T.Cells(T.base_symbols(key[0]) | T.base_symbols(key[1]))
                d = C.differ([key])
                self.rep.count('cells', C.count)
                DECIDED[key] = (d and C.point(d[0]),)
            (p,) = DECIDED[key]
            back = {v: s for s, v in pos.items()}
            return p and ({back[s]: v for s, v in p.items()},)
        C = T.Cells(syms)
        d = C.differ([(t, ref)])
        self.rep.count('cells', C.count)
        return d and (C.point(d[0]),)
    def at(self, p, src, labels):
        names = {}
        for n, l in zip('abcde', square(src, labels[0])): names.setdefault(norm(l), n)
        return ', '.join(f'{names.get(s[1], "w%d" % s[1])}={v}' for s, v in p.items())
    def homology(self, m, src, tgt, labels, where, what):
        I, st = self.I, self.st
        hc = I.homology(st, src, key=('h', src))
        r = self.call(m, 'apply_homology', [hc], where, f'{what}: the action on homology')
        if r is None: return
        g = I.field_of(st, r, 'algebraic')
        its = I.items(st, g) if g else None
        ts = [I.term(x) for x in its] if its is not None else []
        tr = I.shape_of(st, I.field_of(st, r, 'triangulation')) if g else None
        if len(ts) != self.zeta or None in ts or tr is None: return self.undecided(f'{what}: the image of a homology class is not known')
        if canon(tr) != tgt: self.found(where, f'{what}: the image of a homology class is on another triangulation'); return
        flipped = set(norm(l) for l in labels)
        name = lambda i, new: ('new', i) if new and i in flipped else i
        bnd = [self.chain(t, lambda l: name(norm(l), False)) for t in src] + [self.chain(t, lambda l: name(norm(l), True)) for t in tgt]
        # the difference of the image and the class, for each basis class of the source
        for j in range(self.zeta):
            v = {}
            for i in range(self.zeta):
                q = dict(ts[i][1]).get((('h', src), j), 0)
                if q: v[name(i, True)] = v.get(name(i, True), 0) + q
            v[name(j, False)] = v.get(name(j, False), 0) - 1
            v = {s: q for s, q in v.items() if q}
            self.rep.count('homology coordinates decided')
            if not span_contains(bnd, v): self.found(where, f'{what}: the image of a homology class is not homologous to it'); return
        if any(t[2] or any(not (isinstance(s, tuple) and s[0] == ('h', src)) for s, _ in t[1]) for t in ts): self.undecided(f'{what}: the action on homology is not linear')
    @staticmethod
    def chain(t, name):
        v = {}
        for l in t:
            v[name(l)] = v.get(name(l), 0) + sign(l)
        return {s: q for s, q in v.items() if q}
    def pl(self, m, src, tgt, chainlabels, where, what, minus=()):
        """The matrix form: chainlabels lists, flip after flip, the labels flipped at once."""
        I, st = self.I, self.st
        w = I.lamination(st, src, key=('p', src), cls='MultiCurve', kind='frac')
        W = [T.sym((('p', src), i)) for i in range(self.zeta)]
        def matrices():
            r = self.call(m, 'pl_action', [w], where, f'{what}: its matrix form')
            if r is None: return None
            mats = []
            for n in ('action', 'condition'):
                f = I.field_of(st, r, n)
                rows = I.items(st, f) if f else None
                rows = [I.items(st, x) for x in rows] if rows is not None else None
                if rows is None or any(x is None or len(x) != self.zeta for x in rows): return 'unknown'
                mats.append([[I.term(y) for y in x] for x in rows])
            return mats
        I.known, I.asked = frozenset(), []
        try:
            mats, asked = matrices(), list(I.asked)
            if mats is None: return
            forms = [(mats, [])]
            if mats == 'unknown':
                # the form has another number of rows on each side: one side after the other
                if not 0 < len(asked) <= 4: return self.undecided(f'{what}: its matrix form is not known')
                forms = []
                for bits in range(2 ** len(asked)):
                    facts = [c if bits >> i & 1 else T.neg(c) for i, c in enumerate(asked)]
                    if not self.possible(facts, src): continue
                    I.known = frozenset(facts)
                    forms.append((matrices(), facts))
                    if forms[-1][0] is None: return
                    if forms[-1][0] == 'unknown': return self.undecided(f'{what}: its matrix form is not known')
        finally: I.known = None
        for mats, facts in forms:
            if self.form(mats, facts, src, chainlabels, where, what) is False: return
    @staticmethod
    def possible(facts, src):
        syms = set()
        for c in facts: T.cond_symbols(c, syms)
        try: return bool(T.Cells(syms, signs={s: (1, 0) for s in syms}).values([Z], [c for c in facts if c is not True]))
        except T.Cannot: return True
    def form(self, mats, facts, src, chainlabels, where, what):
        """The matrix form holds for all multicurves in its region, where the facts given hold of the lamination it was asked for."""
        W = [T.sym((('p', src), i)) for i in range(self.zeta)]
        A, Cn = mats
        if len(A) != self.zeta: self.found(where, f'{what}: the matrix of its action is not square'); return False
        flat = [y for M in mats for x in M for y in x]
        if any(y is not None and T.size(y) >= 20000 for y in flat): return self.undecided(f'{what}: an entry of its matrix form is too large')
        if None in flat: return self.undecided(f'{what}: an entry of its matrix form is not known')
        # multicurves: non-negative weights satisfying the triangle inequalities in every triangle of every triangulation met
        V = [T.sym((('v', src), i)) for i in range(self.zeta)]
        sup = [t for t in src if any(l in t or ~l in t for ls in chainlabels for l in ls)]
        def cone(X, tris): return [T.ge0(T.sub(T.add(X[norm(t[i])], X[norm(t[(i + 1) % 3])]), X[norm(t[(i + 2) % 3])])) for t in tris for i in range(3)]
        def steps(X):
            """The weights after all flips, and the conditions to be a multicurve."""
            cs, tris = cone(X, sup), src
            for ls in chainlabels:
                X = list(X)
                new = {norm(l): REF(*[X[norm(x)] for x in square(tris, l)]) for l in ls}
                for i, t in new.items(): X[i] = t
                for l in ls: tris = flip(tris, l)
            return X, cs
        try:
            ws, vs = [(('p', src), i) for i in range(self.zeta)], [(('v', src), i) for i in range(self.zeta)]
            _, given = steps(W)
            given = [g for g in given + facts if g is not True]
            used = set()
            for t in flat: T.base_symbols(t, used)
            for g in given: T.cond_symbols(g, used)
            C = T.Cells(used, signs={s: (1, 0) for s in ws})
            regions = C.values(flat, given)
            img, gv = steps(V)
            for vals, cell in regions.items():
                if any(any(v[:-1]) for v in vals): return self.undecided(f'{what}: an entry of its matrix form is not constant')
                vals = [v[-1] for v in vals]
                z = self.zeta
                act = [vals[i * z:(i + 1) * z] for i in range(z)]
                con = [vals[z * z + i * z:z * z + (i + 1) * z] for i in range(len(Cn))]
                dot = lambda row, X: self.sum(T.scale(x, q) for q, x in zip(row, X))
                # the weights themselves lie in the region
                p = C.point(cell)
                if any(sum(q * p.get(x, 0) for q, x in zip(row, ws)) < 0 for row in con):
                    self.found(where, f'{what}: the multicurve lies outside the region its matrix form is given for'); return False
                pairs = [(dot(act[i], V), img[i]) for i in range(z)]
                pairs = [(x, y) for x, y in pairs if x != y]
                given2 = gv + [T.ge0(dot(row, V)) for row in con if any(row)]
                d = self.region(pairs, [g for g in given2 if g is not True], vs, [norm(x) for ls in chainlabels for l in ls for x in square(src, l)])
                self.rep.count('matrix forms decided')
                if d: self.found(where, f'{what}: its matrix form is not its action on the region it is given for'); return False
            self.rep.count('cells', C.count)
        except T.Cannot as x: self.undecided(f'{what}: matrix form: {x}')
    def region(self, pairs, given, vs, order):
        """Whether some pair differs where given holds, all symbols being non-negative."""
        syms = set()
        for x, y in pairs: T.base_symbols(x, syms); T.base_symbols(y, syms)
        for g in given: T.cond_symbols(g, syms)
        order = order + [i for i in range(self.zeta) if i not in order]
        pos = {vs[i]: ('w', j) for j, i in reversed(list(enumerate(order)))}
        key = (tuple((T.rename(x, pos.get), T.rename(y, pos.get)) for x, y in pairs), frozenset(T.rename_cond(g, pos.get) for g in given))
        if key not in DECIDED:
            D = T.Cells([pos[s] for s in syms], signs={pos[s]: (1, 0) for s in syms})
            DECIDED[key] = (D.differ(key[0], given=sorted(key[1], key=repr)) is not None,)
            self.rep.count('cells', D.count)
        return DECIDED[key][0]
    @staticmethod
    def sum(ts):
        r = Z
        for t in ts: r = T.add(r, t)
        return r
    # ---- whole obligations
    def both_ways(self, enc, labels, where, what, pl=True):
        I, st = self.I, self.st
        m = self.move(enc, where, what)
        if m is None: return None
        sh = self.shapes(m, where, what)
        if sh is None: return None
        if sh[0] != self.tris: self.found(where, f'{what} does not start at the triangulation it was asked of'); return None
        if not self.good_target(sh[0], sh[1], labels, where, what): return None
        c = self.cls(m)
        cw = lambda n: self.where(c, n)
        self.lamination(m, sh[0], sh[1], labels, cw('apply_lamination'), what)
        self.homology(m, sh[0], sh[1], labels, cw('apply_homology'), what)
        if pl: self.pl(m, sh[0], sh[1], [labels], cw('pl_action'), what)
        inv = self.call(m, 'inverse', [], cw('inverse'), f'the inverse of {what}')
        if inv is None: return m
        if self.cls(inv) is None: self.undecided(f'the inverse of {what} is not known'); return m
        s2 = self.shapes(inv, where, what)
        if s2 is None: return m
        self.rep.count('inverse moves')
        if s2 != (sh[1], sh[0]): self.found(cw('inverse'), f'the inverse of {what} does not lead back from its target to its source'); return m
        self.lamination(inv, sh[1], sh[0], labels, cw('apply_lamination'), f'the inverse of {what}')
        self.homology(inv, sh[1], sh[0], labels, cw('apply_homology'), f'the inverse of {what}')
        if pl: self.pl(inv, sh[1], sh[0], [labels], cw('pl_action'), f'the inverse of {what}')
        # flipping back by the label of the inverse move restores labels and orientations
        lab = self.package(inv)
        if lab is None: self.undecided(f'the label of the inverse of {what} is not known'); return m
        op = 'encode_flip' if len(lab) == 1 and c == 'EdgeFlip' else 'encode_multiflip'
        tv = I.triangulation(st, sh[1])
        arg = k(lab[0]) if op == 'encode_flip' else I.lst(st, ('back', lab), [k(x) for x in lab])
        back = self.call(tv, op, [arg], self.where('Triangulation', op), f'flipping back by the inverse of {what}')
        if back is None: return m
        bm = self.move(back, where, what)
        bs = bm and self.shapes(bm, where, what)
        if bs:
            self.rep.count('flips undone')
            if bs[1] != self.tris: self.found(self.where('Triangulation', op), f'{what} and then flipping by the labels of its inverse does not restore the triangulation')
        return m
    def package(self, m):
        """The labels a move says it flips."""
        I, st = self.I, self.st
        v = I.invoke(st, m, 'package', [])
        if not v: return None
        its = I.items(st, v)
        if its is not None:
            ls = I.labels_of(st, v)
            return tuple(sorted(ls)) if ls else None
        x = I.sole(v)
        return (x.v,) if isinstance(x, K) and x.ty == 'int' else None
    def where(self, cls, name):
        own = self.repo.find_method(cls, name) if cls in self.repo.classes else None
        return self.repo.where(own[1]) if own else f'{cls}.{name}'
    def run(self, tier, part=0, parts=1):
        I, st = self.I, self.st
        tv = I.triangulation(st, self.tris)
        labels = [l for l in range(-self.zeta, self.zeta) if flippable(self.tris, l)]
        for j, l in enumerate(labels):
            if j % parts != part: continue
            sh = 'a positive edge' if l >= 0 else 'a reversed edge'
            w1 = self.where('Triangulation', 'encode_flip')
            enc = self.call(tv, 'encode_flip', [k(l)], w1, f'the flip of {sh}')
            if enc is not None: self.both_ways(enc, (l,), w1, f'the flip of {sh}')
            w2 = self.where('Triangulation', 'encode_multiflip')
            enc = self.call(tv, 'encode_multiflip', [I.lst(st, ('mf', l), [k(l)])], w2, f'the simultaneous flip of {sh}')
            if enc is not None: self.both_ways(enc, (l,), w2, f'the simultaneous flip of {sh}')
        sup = lambda l: set(t for t in self.tris if l in t or ~l in t)
        n = 0
        for i, a in enumerate(labels):
            for b in labels[i + 1:]:
                if sup(a) & sup(b): continue
                n += 1
                if tier == 'quick' and n > 8: break
                if n % parts != part: continue
                w2 = self.where('Triangulation', 'encode_multiflip')
                what = 'the simultaneous flip of two edges'
                enc = self.call(tv, 'encode_multiflip', [I.lst(st, ('mf', a, b), [k(a), k(b)])], w2, what)
                if enc is not None:
                    m = self.both_ways(enc, (a, b), w2, what)
                    if m is not None: self.expansion(m, (a, b), what)
    def expansion(self, m, labels, what):
        """The expansion of a simultaneous flip into single flips flips the same edges."""
        I, st = self.I, self.st
        w = self.where(self.cls(m), 'flip_mapping')
        r = self.call(m, 'flip_mapping', [], w, f'{what}: its expansion')
        its = I.items(st, I.field_of(st, r, 'sequence')) if r and I.field_of(st, r, 'sequence') else None
        if its is None: return self.undecided(f'{what}: its expansion is not known')
        sh = [self.shapes(x, w, what) for x in its]
        lab = [self.package(x) for x in its]
        if None in sh or None in lab: return self.undecided(f'{what}: its expansion is not known')
        self.rep.count('expansions')
        end = self.shapes(m, w, what)[1]
        if sorted(x for l in lab for x in l) != sorted(labels) or any(self.cls(x) != 'EdgeFlip' for x in its) or sh[-1][0] != self.tris or sh[0][1] != end or any(sh[i + 1][1] != sh[i][0] for i in range(len(sh) - 1)):
            self.found(w, f'{what}: its expansion does not flip each of its edges once, from its source to its target')

def check(repo, rep):
    rep.rule('For each gluing pattern and each flippable label, encode_flip, encode_multiflip, the moves they create, their inverses, their action on laminations and homology and their '
             'matrix forms are interpreted abstractly with constant labels and symbolic weights; every coordinate of the result is compared, on every cell of the polyhedral '
             'subdivision induced by its guards, with the weight counted from normal arcs, with the relation between cycles, or with the linear form of the region.')
    names = ['torus', 'sphere3', 'sphere4', 's12'] if rep.tier == 'quick' else list(SHAPES)
    parts = [(n, i) for n in reversed(names) for i in range(4 if n in ('s12', 'sphere4', 'fold4') else 1)]
    for counts, findings, notes, err in parallel(lambda p: work(repo, rep.tier, p[0], p[1]), parts):
        if err: raise AnalysisError(err)
        for c, n in counts.items(): rep.count(c, n)
        for f in findings: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for n in notes: rep.note(n)
    edges(repo, rep)
    rep.need('weights decided', 40)
    rep.need('homology coordinates decided', 40)
    rep.need('matrix forms decided', 8)

def edges(repo, rep):
    """The orientation of an edge: the operations on a single edge, for labels of both signs."""
    I, st = Model(repo), State()
    from exprs import edge_const
    def value(v):
        x = I.sole(v) if v else None
        c = edge_const(x) if x is not None else None
        if c is not None: return c
        if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst':
            f = st.heap[x.oid].fields.get('label')
            y = I.sole(f) if f else None
            return y.v if isinstance(y, K) else None
        return x.v if isinstance(x, K) else None
    for l in range(-4, 4):
        e = I.heap(st, ('edge', l), Rec('inst', org='an argument', cls='Edge', fields={}))
        where = lambda n: repo.where(repo.method('Edge', n))
        if I.invoke(st, e, '__init__', [k(l)]) is None: rep.finding('edge', where('__init__'), 'an edge cannot be made from its label'); return
        want = {'label': l, 'index': max(l, ~l)}
        for n, x in want.items():
            f = I.field_of(st, e, n)
            if f is not None and isinstance(I.sole(f), K) and I.sole(f).v != x: rep.finding('edge', where('__init__'), f'the {n} of an edge is wrong')
        for n, args, x in (('__invert__', [], ~l), ('sign', [], sign(l)), ('set_sign', [k(1)], max(l, ~l)), ('set_sign', [k(-1)], min(l, ~l))):
            r = I.invoke(st, e, n, args)
            g = value(r)
            rep.count('edge operations')
            if r is None or g is not None and g != x: rep.finding('edge', where(n), f'the orientation of an edge is mistaken: {n} of an edge of sign {sign(l)}')

def work(repo, tier, name, part):
    from report import Report
    rep = Report('C12', tier)
    err = None
    from report import part as guarded
    guarded(rep, lambda: Flips(repo, rep, name, SHAPES[name]).run(tier, part, 4 if name in ('s12', 'sphere4', 'fold4') else 1))
    return rep.counts, rep.findings, rep.notes, err
