"""C08: saved objects and packaged moves rebuild to equal objects.

The reduce methods, the callables they name, the package of every kind of move and the sequence decoder are interpreted
abstractly on given gluing patterns; what is rebuilt must agree with what was saved."""
from dom import *
import terms as T
from repo import AnalysisError
from model import *
from check_c15 import Both, dump, compare, symmetric
from report import parallel

LAM6 = ('Lamination', 'IntegralLamination', 'MultiCurve', 'Curve', 'MultiArc', 'Arc')
PICKLABLE = ('list', 'tuple', 'dict', 'set', 'nd', 'inst')

class Saved(Both):
    def __init__(self, repo, rep, name):
        super().__init__(repo, rep, name)
        I = self.I
        for c in repo.classes:
            for n, f in (('encode_twist', self.twist), ('encode_halftwist', self.halftwist), ('crush', self.crush), ('parallel', self.parallel)):
                if n in repo.classes[c].methods and repo.is_sub(c, 'Lamination'): I.contracts[f'{c}.{n}'] = f
        self.parallels = {}
    # ---- what the decoder builds twists from is all that matters here; how they act is not
    def move(self, I, st, node, cls, of, recv, extra):
        t = I.field_of(st, recv, 'triangulation')
        if t is None: return None
        return I.alloc(st, node, Rec('inst', cls=cls, fields=dict({of: recv, 'source_triangulation': t, 'target_triangulation': t}, **extra)), 'tm' + cls)
    def enc(self, I, st, node, m, cls='MappingClass'):
        t = I.field_of(st, m, 'source_triangulation')
        return I.alloc(st, node, Rec('inst', cls=cls, fields={'sequence': I.new(st, node, 'list', items=[m], sub='sq'), 'source_triangulation': t, 'target_triangulation': t}), 'tw')
    def given(self, args, kw): return args[1] if len(args) > 1 else kw.get('power', k(1))
    def twist(self, I, st, f, args, kw, node):
        m = self.move(I, st, node, 'Twist', 'curve', args[0], {'power': self.given(args, kw)})
        return m and self.enc(I, st, node, m)
    def halftwist(self, I, st, f, args, kw, node):
        m = self.move(I, st, node, 'HalfTwist', 'arc', args[0], {'power': self.given(args, kw)})
        return m and self.enc(I, st, node, m)
    def crush(self, I, st, f, args, kw, node):
        m = self.move(I, st, node, 'Crush', 'curve', args[0], {})
        return m and self.enc(I, st, node, m, 'Encoding')
    def parallel(self, I, st, f, args, kw, node):
        x = I.sole(args[0])
        l = self.parallels.get(x.oid) if isinstance(x, Ref) else None
        return None if l is None else E(l)
    # ---- comparing
    def same(self, where, what, st, was, now, rule='rebuilt'):
        self.rep.count('objects compared')
        a = was if isinstance(was, tuple) else dump(self.I, st, was)
        b = dump(self.I, st, now)
        a, b = drop(a), drop(b)
        r = compare(a, b)
        if a == '?' or b == '?' or r == '?': self.rep.count('undecided'); self.rep.note(f'{what}: not known completely')
        elif r == 'refused': self.rep.finding(rule, where, f'{what}: rebuilding never returns')
        elif r: self.rep.finding(rule, where, f'{what}: {r if r.startswith("a") else "another " + r} is rebuilt')
        else: self.rep.count('rebuilt alike')
    def rebuild(self, st, v, what):
        """What pickling and unpickling v gives: (value, where) or None when that is not known."""
        I, repo = self.I, self.repo
        x = I.sole(v)
        cls = st.heap[x.oid].cls
        for name, args in (('__reduce_ex__', [k(2)]), ('__reduce__', [])):
            own = repo.find_method(cls, name)
            if own: break
        else:
            self.rep.note(f'{what}: {cls} relies on the default'); return None
        at = repo.where(own[1])
        r = I.invoke(st, v, name, args)
        if r is None:
            self.rep.finding('rebuilt', at, f'{what}: saving never returns'); return None
        its = I.items(st, r) if len(r) == 1 and isinstance(I.sole(r), Ref) else None
        if its is None or len(its) < 2: self.rep.count('undecided'); self.rep.note(f'{what}: what is saved is not known'); return None
        if len(its) > 2 and not all(len(i) == 1 and isinstance(I.sole(i), K) and I.sole(i).v is None for i in its[2:]): self.rep.note(f'{what}: saved with a state'); return None
        f, a = I.sole(its[0]) if len(its[0]) == 1 else None, I.items(st, its[1])
        if f is None or a is None: self.rep.count('undecided'); self.rep.note(f'{what}: what is saved is not known'); return None
        if isinstance(f, Fn) and f.node is not None and not hasattr(f.node, 'name') or isinstance(f, Fn) and self.nested(f.node):
            self.rep.finding('rebuilt', at, f'{what}: is saved with a function that cannot be found again'); return None
        for i in a:
            y = I.sole(i) if len(i) == 1 else None
            if isinstance(y, Ref) and st.heap[y.oid].kind in ('iter', 'gen', 'view') or isinstance(y, Fn) and not hasattr(y.node, 'name'):
                self.rep.finding('rebuilt', at, f'{what}: is saved with something that cannot be saved'); return None
        from interp import Dead
        I.epoch += 1
        I.sinks.append([])
        try: out = I.call(its[0], list(a), {}, st, I.NODE)
        except Dead: out = None
        finally: I.sinks.pop()
        return out, at
    def nested(self, node):
        try: return self.repo.owner.get(node) is None
        except TypeError: return False
    def saved(self, what, make, was=None):
        st = self.st0.copy()
        self.I.epoch += 1
        v = make(st)
        if v is None: self.rep.note(f'{what}: cannot be made'); return
        was = was or dump(self.I, st, v)
        got = self.rebuild(st, v, what)
        if got is None: return
        self.same(got[1], what, st, was, got[0])
    def encoded(self, what, moves, where=None, whole=True):
        """An encoding of the given moves, saved and rebuilt."""
        def make(st):
            ms = moves(st)
            if any(m is None for m in ms): return None
            e = self.construct(st, 'Encoding', [self.lst(st, ms)])
            return self.I.invoke(st, e, 'promote') if e is not None else None
        self.saved(what, make)
    def described(self, cls, what, make):
        """One move through its own short description."""
        st = self.st0.copy()
        self.I.epoch += 1
        m = make(st)
        if m is None: self.rep.note(f'{what}: cannot be made'); return
        own = self.repo.find_method(cls, 'package')
        if own is None: return
        at = self.repo.where(own[1])
        p = self.I.invoke(st, m, 'package')
        if p is None: self.rep.finding('rebuilt', at, f'{what}: describing it never returns'); return
        src = self.I.field_of(st, m, 'source_triangulation')
        e = self.I.invoke(st, src, 'encode', [self.lst(st, [p])])
        if e is None: self.rep.count('objects compared'); self.rep.finding('rebuilt', at, f'{what}: its description is not understood'); return
        its = self.I.items(st, self.I.field_of(st, e, 'sequence') or TOP)
        if its is None: self.rep.count('objects compared'); self.rep.count('undecided'); self.rep.note(f'{what}: not known completely'); return
        if len(its) != 1: self.rep.count('objects compared'); self.rep.finding('rebuilt', at, f'{what}: its description gives {len(its)} moves'); return
        self.same(at, what, st, m, its[0])
        self.encoded(what + ' in an encoding', lambda st: [make(st)])
    # ---- making things
    def tri(self, st, tris=None): return self.I.triangulation(st, tris or self.tris)
    def dct_(self, st, m): return self.dct(st, [(k(a), k(b)) for a, b in m.items()])
    def iso(self, st, src, tgt, m): return self.construct(st, 'Isometry', [self.tri(st, src), self.tri(st, tgt), self.dct_(st, m)])
    def eflip(self, st, src, l): return self.construct(st, 'EdgeFlip', [self.tri(st, src), self.tri(st, flip(src, l)), E(l)])
    def mflip(self, st, src, ls):
        tgt = src
        for l in ls: tgt = flip(tgt, l)
        return self.construct(st, 'MultiEdgeFlip', [self.tri(st, src), self.tri(st, tgt), self.lst(st, [E(l) for l in ls], 'set')])
    def about(self, st, cls, src, l, p):
        """A twist, half twist or crush about what the edge l gives."""
        arc = cls == 'HalfTwist'
        c = self.I.invoke(st, self.tri(st, src), 'edge_arc' if arc else 'edge_curve', [E(l)])
        if c is None: return None
        self.parallels[self.I.sole(c).oid] = l
        t = self.tri(st, src)
        f = {'arc' if arc else 'curve': c, 'source_triangulation': t, 'target_triangulation': t}
        if cls != 'Crush': f['power'] = p
        self.n += 1
        return self.I.heap(st, ('c08', self.n), Rec('inst', org='an argument', cls=cls, fields=f))
    def linear(self, st, cls, src, tgt, inverse=None):
        self.n += 1
        a = 1 if inverse is None else 2
        m = self.I.heap(st, ('c08m', self.n), Rec('nd', (self.lst(st, [k(a), k(0)]), self.lst(st, [k(0), k(a)])), BOT, BOT, True, 'an argument'))
        f = {'source_triangulation': self.tri(st, src), 'target_triangulation': self.tri(st, tgt), 'matrix': m}
        if cls == 'Lift': f['vertices'] = self.lst(st, [])
        n = self.n
        f['_inverse'] = inverse or self.linear(st, 'LinearTransformation', tgt, src, one(K('NoneType', None)))
        return self.I.heap(st, ('c08l', n), Rec('inst', org='an argument', cls=cls, fields=f))
    # ---- everything
    def objects(self):
        I, z = self.I, self.zeta
        for l in range(-z, z): self.saved('an edge' if l >= 0 else 'a reversed edge', lambda st, l=l: self.real_edge(st, l), ('edge', l))
        for t in self.tris:
            for r in range(3):
                u = t[r:] + t[:r]
                self.saved('a triangle' if not r else 'a rotated triangle', lambda st, u=u: self.triangle(st, u))
        self.saved('a triangulation', self.tri)
        for c in LAM6:
            for kind in ('int', 'frac') if c == 'Lamination' else ('int',):
                self.saved(f'a lamination of class {c}', lambda st, c=c, kind=kind: I.lamination(st, self.tris, ('c08', c, kind), c, kind=kind))
        self.saved('a homology class', lambda st: I.homology(st, self.tris, ('c08h',)))
        for c in sorted(self.repo.classes):
            if c in LAM6 or c in ('Edge', 'Triangle', 'Triangulation', 'HomologyClass') or self.repo.is_sub(c, 'Encoding') or self.repo.is_sub(c, 'Move') or self.repo.is_sub(c, 'Lamination'): continue
            self.plain(c)
    def real_edge(self, st, l):
        self.n += 1
        return self.I.heap(st, ('c08e', self.n), Rec('inst', org='an argument', cls='Edge', fields={'label': k(l), 'index': k(max(l, ~l))}))
    def triangle(self, st, u):
        self.n += 1
        return self.I.heap(st, ('c08t', self.n), Rec('inst', org='an argument', cls='Triangle', fields={
            'edges': self.lst(st, [E(l) for l in u]), 'labels': self.lst(st, [k(l) for l in u]), 'indices': self.lst(st, [k(max(l, ~l)) for l in u])}))
    def plain(self, c):
        """Any other class that says how it is saved, with unknown numbers in its fields."""
        own = self.repo.classes[c].methods
        if not {'__reduce__', '__reduce_ex__'} & set(own) or '__init__' not in own: return
        init = own['__init__']
        names = [a.arg for a in init.args.args[1:]]
        def make(st):
            self.n += 1
            v = self.I.heap(st, ('c08p', self.n), Rec('inst', org='an argument', cls=c, fields={}))
            return v if self.I.invoke(st, v, '__init__', [num('real', t=T.sym(('p', c, i))) for i in range(len(names))]) is not None else None
        self.saved(f'an object of class {c}', make)
    def moves(self, tier):
        I, z = self.I, self.zeta
        labels = list(range(-z, z))
        flips = [l for l in labels if flippable(self.tris, l)]
        POWERS = [k(1), k(-1), k(2), k(-3), num('int', 1, t=T.sym(('p', 0))), num('int', hi=-1, t=T.sym(('p', 0)))]
        for l in flips: self.described('EdgeFlip', f'the flip of {"an edge" if l >= 0 else "a reversed edge"}', lambda st, l=l: self.eflip(st, self.tris, l))
        sup = lambda l: set(t for t in self.tris if l in t or ~l in t)
        pairs = [(a, b) for a in flips for b in flips if max(a, ~a) < max(b, ~b) and not sup(a) & sup(b)]
        for ls in [(l,) for l in flips] + pairs: self.described('MultiEdgeFlip', f'the simultaneous flip of {"one edge" if len(ls) == 1 else "two edges"}', lambda st, ls=ls: self.mflip(st, self.tris, ls))
        first, isos = symmetric(self.tris)
        for m in isos:
            what = 'the identity isometry' if all(a == b for a, b in m.items()) else 'the isometry reversing every edge' if all(a == ~b for a, b in m.items()) else 'an isometry to itself'
            self.described('Isometry', what, lambda st, m=m: self.iso(st, self.tris, self.tris, m))
        for m in self.relabels():
            self.described('Isometry', 'an isometry to another triangulation', lambda st, m=m: self.iso(st, self.tris, self.image(m), m))
        vs = vertices(self.tris)
        of = {l: v for v in vs for l in v}
        loops, arcs = [l for l in labels if of[l] == of[~l]], [l for l in labels if of[l] != of[~l]]
        for p in POWERS:
            for l in loops if tier == 'thorough' or len(loops) <= 6 else loops[::2] + loops[1:2]: self.described('Twist', f'a twist about {"an edge" if l >= 0 else "a reversed edge"}', lambda st, l=l, p=p: self.about(st, 'Twist', self.tris, l, p))
            for l in arcs if tier == 'thorough' or len(arcs) <= 6 else arcs[::2] + arcs[1:2]: self.described('HalfTwist', f'a half twist about {"an edge" if l >= 0 else "a reversed edge"}', lambda st, l=l, p=p: self.about(st, 'HalfTwist', self.tris, l, p))
        for l in loops: self.described('Crush', f'a crush about {"an edge" if l >= 0 else "a reversed edge"}', lambda st, l=l: self.about(st, 'Crush', self.tris, l, None))
        for c in ('LinearTransformation', 'Lift'):
            self.described(c, f'a move of class {c}', lambda st, c=c: self.linear(st, c, self.tris, self.tris))
            if flips: self.described(c, f'a move of class {c} to another triangulation', lambda st, c=c: self.linear(st, c, self.tris, flip(self.tris, flips[0])))
        # sequences, whose first item acts last
        some = self.relabels()[:2]
        for l in flips[:4] + flips[-2:]:
            T1 = flip(self.tris, l)
            for l2 in [x for x in (l, ~l) + tuple(labels) if flippable(T1, x)][:4]:
                self.encoded('one flip after another', lambda st, l=l, l2=l2, T1=T1: [self.eflip(st, T1, l2), self.eflip(st, self.tris, l)])
            for m in some:
                T2 = self.image(m, T1)
                l3 = next((x for x in labels[::-1] if flippable(T2, x)), None)
                if l3 is not None: self.encoded('a flip, an isometry and a flip', lambda st, l=l, l3=l3, m=m, T1=T1, T2=T2: [self.eflip(st, T2, l3), self.iso(st, T1, T2, m), self.eflip(st, self.tris, l)])
            self.encoded('a flip, a linear transformation back and a flip', lambda st, l=l, T1=T1: [self.eflip(st, self.tris, l), self.linear(st, 'Lift', T1, self.tris), self.eflip(st, self.tris, l)])
        for a in loops[:2]:
            for b in loops[-2:]:
                self.encoded('one twist after another', lambda st, a=a, b=b: [self.about(st, 'Twist', self.tris, a, k(2)), self.about(st, 'Twist', self.tris, b, k(-1))])
                self.encoded('a crush after a twist', lambda st, a=a, b=b: [self.about(st, 'Crush', self.tris, a, None), self.about(st, 'Twist', self.tris, b, k(3))])
                for m in isos[1:3]: self.encoded('a twist after an isometry after a twist', lambda st, a=a, b=b, m=m: [self.about(st, 'Twist', self.tris, a, k(1)), self.iso(st, self.tris, self.tris, m), self.about(st, 'Twist', self.tris, b, k(-2))])
        for a in arcs[:2]:
            for b in arcs[-2:]: self.encoded('one half twist after another', lambda st, a=a, b=b: [self.about(st, 'HalfTwist', self.tris, a, k(2)), self.about(st, 'HalfTwist', self.tris, b, k(-1))])
        for m in isos[1:3]:
            for m2 in isos[1:3]: self.encoded('one isometry after another', lambda st, m=m, m2=m2: [self.iso(st, self.tris, self.tris, m), self.iso(st, self.tris, self.tris, m2)])
    def relabels(self):
        z = self.zeta
        out = []
        for perm in ([(i + 1) % z for i in range(z)], [z - 1 - i for i in range(z)]):
            for sg in (lambda i: 0, lambda i: 1, lambda i: i % 2):
                m = {}
                for i, j in enumerate(perm): m[i] = ~j if sg(i) else j; m[~i] = ~m[i]
                out.append(m)
        return out
    def image(self, m, tris=None): return canon([tuple(m[l] for l in t) for t in tris or self.tris])
    # ---- what the decoder is documented to understand
    def decoded(self, what, items, want):
        st = self.st0.copy()
        self.I.epoch += 1
        w = want(st)
        if any(m is None for m in w): self.rep.note(f'{what}: cannot be made'); return
        own = self.repo.find_method('Triangulation', 'encode')
        if own is None: return
        at = self.repo.where(own[1])
        e = self.I.invoke(st, self.tri(st), 'encode', [self.lst(st, items(st))])
        self.rep.count('descriptions decoded')
        if e is None: self.rep.finding('decoded', at, f'{what}: is not understood'); return
        its = self.I.items(st, self.I.field_of(st, e, 'sequence') or TOP)
        if its is None: self.rep.count('undecided'); self.rep.note(f'{what}: not known completely'); return
        if len(its) != len(w): self.rep.finding('decoded', at, f'{what}: gives {len(its)} moves instead of {len(w)}'); return
        for a, b in zip(w, its): self.same(at, what, st, a, b, 'decoded')
    def decoder(self):
        z, labels = self.zeta, list(range(-self.zeta, self.zeta))
        flips = [l for l in labels if flippable(self.tris, l)]
        first, isos = symmetric(self.tris)
        for l in flips:
            for f, n in ((k, 'a label'), (E, 'an edge')): self.decoded(f'{n} as the flip of it', lambda st, l=l, f=f: [f(l)], lambda st, l=l: [self.eflip(st, self.tris, l)])
            self.decoded('a set as a simultaneous flip', lambda st, l=l: [self.lst(st, [k(l)], 'set')], lambda st, l=l: [self.mflip(st, self.tris, (l,))])
            T1 = flip(self.tris, l)
            for l2 in [x for x in labels if flippable(T1, x)][::3]: self.decoded('two labels as flips, the last one first', lambda st, l=l, l2=l2: [k(l2), k(l)], lambda st, l=l, l2=l2, T1=T1: [self.eflip(st, T1, l2), self.eflip(st, self.tris, l)])
        for m in self.relabels():
            for part, n in (({i: m[i] for i in range(z)}, 'positive'), ({~i: m[~i] for i in range(z)}, 'negative'), ({(i if i % 2 else ~i): m[i if i % 2 else ~i] for i in range(z)}, 'mixed'), (m, 'all')):
                self.decoded(f'a relabelling of {n} labels', lambda st, part=part: [self.dct_(st, part)], lambda st, m=m: [self.iso(st, self.tris, self.image(m), m)])
        for m in isos:
            for l in (first, ~first, labels[-1]): self.decoded('an isometry given by one label', lambda st, m=m, l=l: [self.dct_(st, {l: m[l]})], lambda st, m=m: [self.iso(st, self.tris, self.tris, m)])
        ident = {l: l for l in labels}
        self.decoded('None as the identity', lambda st: [one(K('NoneType', None))], lambda st: [self.iso(st, self.tris, self.tris, ident)])
        vs = vertices(self.tris)
        of = {l: v for v in vs for l in v}
        for l in labels[::2] + labels[-1:]:
            for f in (k, E):
                for p in (k(1), k(-2)):
                    c = 'Twist' if of[l] == of[~l] else 'HalfTwist'
                    self.decoded(f'an edge and a power as a move of class {c}', lambda st, l=l, f=f, p=p: [self.lst(st, [f(l), p], 'tuple')], lambda st, l=l, p=p, c=c: [self.about(st, c, self.tris, l, p)])
                if of[l] == of[~l]: self.decoded('an edge and the power zero as a crush', lambda st, l=l, f=f: [self.lst(st, [f(l), k(0)], 'tuple')], lambda st, l=l: [self.about(st, 'Crush', self.tris, l, None)])
        # what comes after a move is about the triangulation that the move ends at
        def after(l, what, items, want):
            T1 = flip(self.tris, l)
            self.decoded(what + ' after a flip', lambda st: items(st) + [k(l)], lambda st: want(st, T1) + [self.eflip(st, self.tris, l)])
        for l in flips:
            T1 = flip(self.tris, l)
            for m in maps(T1, self.tris)[:2]:
                after(l, 'an isometry back given by one label', lambda st, m=m: [self.dct_(st, {first: m[first]})], lambda st, T1, m=m: [self.iso(st, T1, self.tris, m)])
            l3 = next(x for x in labels if flippable(T1, x))
            after(l, 'None and a flip', lambda st, l3=l3: [k(l3), one(K('NoneType', None))], lambda st, T1, l3=l3: [self.eflip(st, T1, l3), self.iso(st, T1, T1, ident)])
            of1 = {x: v for v in vertices(T1) for x in v}
            for x in [y for y in labels if (of1[y] == of1[~y]) != (of[y] == of[~y])][:4] + labels[::4] + [l, ~l]:
                c = 'Twist' if of1[x] == of1[~x] else 'HalfTwist'
                after(l, f'an edge and a power as a move of class {c}', lambda st, x=x: [self.lst(st, [k(x), k(3)], 'tuple')], lambda st, T1, x=x, c=c: [self.about(st, c, T1, x, k(3))])
                if c == 'Twist': after(l, 'an edge and the power zero as a crush', lambda st, x=x: [self.lst(st, [k(x), k(0)], 'tuple')], lambda st, T1, x=x: [self.about(st, 'Crush', T1, x, None)])
        for l in flips[:3]:
            self.decoded('a move as itself', lambda st, l=l: [self.eflip(st, self.tris, l)], lambda st, l=l: [self.eflip(st, self.tris, l)])
            def encoding(st, l=l):
                T1 = flip(self.tris, l)
                return [self.construct(st, 'Encoding', [self.lst(st, [self.eflip(st, T1, ~l), self.eflip(st, self.tris, l)])])]
            self.decoded('an encoding as its moves', encoding, lambda st, l=l: [self.eflip(st, flip(self.tris, l), ~l), self.eflip(st, self.tris, l)])
    def run_all(self, tier):
        from report import part
        part(self.rep, self.objects); part(self.rep, self.moves, tier); part(self.rep, self.decoder)

def maps(a, b):
    """The label maps extending to isometries of one pattern to another."""
    ca, cb = ({t[i]: t[(i + 1) % 3] for t in tris for i in range(3)} for tris in (a, b))
    out, first = [], min(abs(l) for l in ca)
    for to in sorted(cb):
        m, work, ok = {}, [(first, to)], True
        while work and ok:
            x, y = work.pop()
            if x in m: ok = m[x] == y; continue
            m[x] = y
            work += [(~x, ~y), (ca[x], cb[y])]
        if ok and len(set(m.values())) == len(ca): out.append(m)
    return out

# what is worked out from these says nothing new, and may be made only when needed
DERIVED = {'Isometry': ('label_map', 'source_triangulation', 'target_triangulation'), 'EdgeFlip': ('edge', 'source_triangulation', 'target_triangulation'), 'MultiEdgeFlip': ('edges', 'source_triangulation', 'target_triangulation'),
    'Twist': ('curve', 'power', 'source_triangulation', 'target_triangulation'), 'HalfTwist': ('arc', 'power', 'source_triangulation', 'target_triangulation'), 'Crush': ('curve', 'source_triangulation', 'target_triangulation'),
    'LinearTransformation': ('matrix', 'source_triangulation', 'target_triangulation'), 'Lift': ('matrix', 'source_triangulation', 'target_triangulation'),
    'Encoding': ('sequence', 'source_triangulation', 'target_triangulation'), 'Mapping': ('sequence', 'source_triangulation', 'target_triangulation'), 'MappingClass': ('sequence', 'source_triangulation', 'target_triangulation'),
    'HomologyClass': ('algebraic', 'triangulation'), 'Triangle': ('edges',), 'Edge': ('label',)}
for c in LAM6: DERIVED[c] = ('geometric', 'triangulation')
def drop(d):
    if isinstance(d, tuple):
        if len(d) == 3 and d[0] == 'instance' and d[1] in DERIVED:
            return ('instance', d[1], tuple((n, drop(w)) for n, w in d[2] if n in DERIVED[d[1]]))
        return tuple(drop(x) for x in d)
    return d

def work(repo, tier, name):
    from report import Report
    rep = Report('C08', tier)
    err = None
    from report import part
    part(rep, lambda: Saved(repo, rep, name).run_all(tier))
    return rep.counts, rep.findings, rep.notes, err

def check(repo, rep):
    rep.rule('What each object says about how it is saved, and the short description of each kind of move, are interpreted abstractly on given gluing patterns, and so is what rebuilds them; a rebuilt object whose '
             'class, edges, labels, powers, weights or order of moves differs from the original, and a description that is not understood, are violations.')
    names = ['torus', 'sphere3', 'sphere4'] if rep.tier == 'quick' else list(SHAPES)
    for counts, findings, notes, err in parallel(lambda n: work(repo, rep.tier, n), names[::-1]):
        if err: raise AnalysisError(err)
        for c, n in counts.items(): rep.count(c, n)
        for f in findings: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for n in notes: rep.note(n)
    rep.need('objects compared', 300)
