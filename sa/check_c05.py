"""C05: inverses, compositions and powers have the right endpoints, order and exponent.

Maps are interpreted abstractly as words: a move is a letter between two given triangulations, its inverse the inverse
letter, a lamination is the word of letters that made it.  What each operation gives is compared as a word in the free group
on the letters."""
from fractions import Fraction as Q
from dom import *
import terms as T
from repo import AnalysisError
from model import *
from interp import Dead
from check_c15 import dump, compare, symmetric
from check_c08 import Saved, drop, maps
from report import parallel

def reduced(w):
    out = []
    for l, s in w:
        if out and out[-1][0] == l and out[-1][1] == -s: out.pop()
        else: out.append((l, s))
    return out
def inv(w): return [(l, -s) for l, s in reversed(w)]
def times(w, n): return (w if n >= 0 else inv(w)) * abs(n)
def show(w):
    if w is None: return 'something unknown'
    return ' '.join(f'{l if isinstance(l, str) else l[0]}{"^-1" if s < 0 else ""}' for l, s in w) or 'the identity'

def commuting(w):
    """Turns about disjoint centres may be made in any order."""
    out = []
    for l in reduced(w) + [None]:
        if l is not None and l[0][0] == 'turn': out.append(l); continue
        i = len(out)
        while i and out[i - 1][0][0] == 'turn': i -= 1
        out[i:] = sorted(out[i:])
        if l is not None: out.append(l)
    return reduced(out)

class Words(Saved):
    def __init__(self, repo, rep, name):
        super().__init__(repo, rep, name)
        I = self.I
        for c in repo.classes:
            for n in ('encode_twist', 'encode_halftwist', 'crush'): I.contracts.pop(f'{c}.{n}', None)
        I.contracts.pop('new:Encoding+', None)
        I.contracts.pop('Triangulation.lamination', None)
        for c in repo.classes:
            if not repo.is_sub(c, 'Move'): continue
            for n, f in (('apply_lamination', self.acts), ('apply_homology', self.acts), ('flip_mapping', self.expands), ('pl_action', self.pl)):
                self.wrap(f'{c}.{n}', f)
        self.wrap('PartialLinearFunction.__mul__', self.plmul)
        self.bad = []
        I.hooks['recursion'] = 6
        for c in repo.classes:
            for n, v in (('is_short', True), ('is_peripheral', False), ('is_non_peripheral', True)):
                if n in repo.classes[c].methods and repo.is_sub(c, 'Lamination'): I.contracts[f'{c}.{n}'] = lambda I, st, f, args, kw, node, v=v: k(v)
        I.contracts['new:Lift'] = self.lift
        for c in repo.classes:
            if not repo.is_sub(c, 'Lamination'): continue
            if 'encode_twist' in repo.classes[c].methods: I.contracts[f'{c}.encode_twist'] = self.boundary_twist
            if 'boundary' in repo.classes[c].methods: I.contracts[f'{c}.boundary'] = lambda I, st, f, args, kw, node: self.formal(st, [('rim', 1)], I.shape_of(st, I.field_of(st, args[0], 'triangulation')), 'Curve')
    def lift(self, I, st, cls, args, kw, node):
        init = self.repo.find_method('Lift', '__init__')
        names = [a.arg for a in init[1].args.args[1:]] if init else []
        f = dict(zip(names, args), **kw)
        if not {'source_triangulation', 'target_triangulation', 'matrix'} <= set(f): return None
        self.n += 1
        return I.heap(st, ('c05l', self.n), Rec('inst', org='fresh', cls='Lift', fields=dict(f, zeta=k(self.zeta), _inverse=one(K('NoneType', None)))))
    def wrap(self, key, f):
        old = self.I.contracts.get(key)
        def g(I, st, fn, args, kw, node):
            r = f(I, st, fn, args, kw, node)
            return r if r is not None else old(I, st, fn, args, kw, node) if old else None
        self.I.contracts[key] = g
    # ---- letters
    def letter(self, st, name, src=None, tgt=None, cls='EdgeFlip'):
        """A formal move and its inverse, linked to each other."""
        I = self.I
        S, D = self.tri(st, src), self.tri(st, tgt or src)
        key = lambda s: ('letter', name, cls, s, canon(src or self.tris), canon(tgt or src or self.tris))
        f = lambda s: {'source_triangulation': S if s > 0 else D, 'target_triangulation': D if s > 0 else S, 'zeta': k(self.zeta), 'letter': one(K('letter', (name, s)))}
        icls = {'Crush': 'Lift', 'Lift': 'Crush'}.get(cls, cls)
        a = I.heap(st, key(1), Rec('inst', org='an argument', cls=cls, fields=f(1)))
        b = I.heap(st, key(-1), Rec('inst', org='an argument', cls=icls, fields=f(-1)))
        st.heap[I.sole(a).oid].fields['_inverse'] = b
        st.heap[I.sole(b).oid].fields['_inverse'] = a
        return a
    def of(self, st, v):
        x = self.I.sole(v) if v and len(v) == 1 else None
        if not isinstance(x, Ref) or st.heap[x.oid].kind != 'inst': return None
        l = st.heap[x.oid].fields.get('letter')
        return self.I.sole(l).v if l else None
    def hist(self, st, v):
        """The letters that a lamination or homology class went through, the last one first."""
        I = self.I
        g = I.field_of(st, v, 'geometric') or I.field_of(st, v, 'algebraic') if v else None
        its = I.items(st, g) if g else None
        if its is None: return None
        ts = [I.term(i) for i in its]
        if any(t is None for t in ts): return None
        for h in self.histories:
            if all(t == T.sym((('F', h), i)) for i, t in enumerate(ts)) and len(ts) == self.zeta: return list(h)
        return None
    histories = None
    def formal(self, st, h, tris=None, cls='IntegralLamination'):
        if self.histories is None: self.histories = []
        h = tuple(h)
        if h not in self.histories: self.histories.append(h)
        vals = [num('int', t=T.sym((('F', h), i))) for i in range(self.zeta)]
        return self.I.vector(st, cls, 'algebraic' if cls == 'HomologyClass' else 'geometric', tris or self.tris, vals, ('F', cls, h))
    def acts(self, I, st, f, args, kw, node):
        l = self.of(st, args[0])
        if l is None: return None
        arg = args[1] if len(args) > 1 else next(iter(kw.values()), TOP)
        h = self.hist(st, arg)
        tgt = I.shape_of(st, I.field_of(st, args[0], 'target_triangulation'))
        src = I.shape_of(st, I.field_of(st, args[0], 'source_triangulation'))
        at = I.shape_of(st, I.field_of(st, arg, 'triangulation') or BOT)
        if h is None or tgt is None: return TOP
        if at is not None and canon(at) != canon(src): self.bad.append('a move is applied to something on another triangulation than its own')
        x = I.sole(arg)
        return self.formal(st, [l] + h, canon(tgt), st.heap[x.oid].cls)
    def expands(self, I, st, f, args, kw, node):
        l = self.of(st, args[0])
        if l is None: return None
        a, s = l
        src, tgt = (canon(I.shape_of(st, I.field_of(st, args[0], n))) for n in ('source_triangulation', 'target_triangulation'))
        ms = [self.letter(st, f'{a}{"" if s > 0 else "-"}.2', tgt), self.letter(st, f'{a}{"" if s > 0 else "-"}.1', src, tgt)]
        return self.construct(st, 'MappingClass' if src == tgt else 'Mapping', [self.lst(st, ms)])
    def pl(self, I, st, f, args, kw, node):
        l = self.of(st, args[0])
        if l is None: return None
        arg = args[1] if len(args) > 1 else next(iter(kw.values()), TOP)
        h = self.hist(st, arg)
        if h is None: return TOP
        self.n += 1
        return I.heap(st, ('c05pl', self.n), Rec('inst', org='fresh', cls='PartialLinearFunction', fields={'word': one(K('word', ((l, tuple(h)),)))}))
    def plword(self, st, v):
        w = self.I.field_of(st, v, 'word') if v else None
        return self.I.sole(w).v if w else None
    def plmul(self, I, st, f, args, kw, node):
        a = self.plword(st, args[0])
        if a is None: return None
        if len(args) > 1 and args[1] == one(K('NoneType', None)): return args[0]
        b = self.plword(st, args[1])
        if b is None: return TOP
        self.n += 1
        return I.heap(st, ('c05pl', self.n), Rec('inst', org='fresh', cls='PartialLinearFunction', fields={'word': one(K('word', a + b))}))
    # ---- reading words
    def word_of_move(self, st, m):
        l = self.of(st, m)
        if l is not None: return [l]
        I = self.I
        x = I.sole(m) if len(m) == 1 else None
        if not isinstance(x, Ref) or st.heap[x.oid].kind != 'inst': return None
        r = st.heap[x.oid]
        if 'turn' in r.fields:
            t = self.turned(st, m)
            if t is None: return None
            return [(('turn', t[0][0]), 1 if t[1] > 0 else -1)] * int(abs(t[1]))
        if r.cls == 'Isometry':
            lm = I.items(st, r.fields.get('label_map', BOT))
            if lm is not None and all(len(a) == 1 and a == b for a, b in lm): return []
        d = drop(dump(I, st, m))
        if d == '?' or "'?'" in repr(d): return None
        s = repr(d)
        inverse = None
        v = st.heap[x.oid].fields.get('_inverse')
        y = I.sole(v) if v and len(v) == 1 else None
        if isinstance(y, Ref):
            e = drop(dump(I, st, v))
            if "'?'" not in repr(e): inverse = repr(e)
        if inverse is not None and inverse < s: return [((r.cls, inverse), -1)]
        return [((r.cls, s), 1)]
    def word(self, st, v):
        s = self.I.field_of(st, v, 'sequence') if v else None
        its = self.I.items(st, s) if s else None
        if its is None: return None
        out = []
        for m in its:
            w = self.word_of_move(st, m)
            if w is None: return None
            out += w
        return reduced(out)
    def ends(self, st, v):
        ss = [self.I.shape_of(st, self.I.field_of(st, v, n) or BOT) for n in ('source_triangulation', 'target_triangulation')]
        return None if None in ss else tuple(canon(s) for s in ss)
    # ---- judging
    def start(self):
        st = self.st0.copy()
        self.I.epoch += 1
        self.bad = []
        return st
    def judge(self, where, what, st, v, want, src=None, tgt=None, norm=reduced):
        self.rep.count('maps compared')
        if v is None: self.rep.finding('word', where, f'{what} never returns'); return
        if self.bad: self.rep.finding('word', where, f'{what}: {self.bad[0]}'); return
        got = self.word(st, v)
        if got is None: self.rep.count('undecided'); self.rep.note(f'{what}: the moves are not known'); return
        self.rep.count('maps decided')
        if norm(got) != norm(want): self.rep.finding('word', where, f'{what} is another map ({self.name})'); self.rep.note(f'{what}: {show(norm(got))} instead of {show(norm(want))}'); return
        e = self.ends(st, v)
        if e is not None and src is not None and e != (canon(src), canon(tgt or src)): self.rep.finding('word', where, f'{what} has other ends ({self.name})')
    def judge_image(self, where, what, st, v, want, tgt):
        self.rep.count('images compared')
        if v is None: self.rep.finding('word', where, f'{what} never returns'); return
        if self.bad: self.rep.finding('word', where, f'{what}: {self.bad[0]}'); return
        h = self.hist(st, v)
        if h is None: self.rep.count('undecided'); self.rep.note(f'{what}: the image is not known'); return
        self.rep.count('images decided')
        if reduced(h) != reduced(want): self.rep.finding('word', where, f'{what} is another image ({self.name})'); return
        at = self.I.shape_of(st, self.I.field_of(st, v, 'triangulation') or BOT)
        if at is not None and canon(at) != canon(tgt): self.rep.finding('word', where, f'{what} is on another triangulation ({self.name})')
    # ---- maps made of letters
    def shapes(self, cls, n):
        T0 = self.tris
        if cls == 'MappingClass': shapes = [T0] + self.path[:1] * (n - 1) + [T0] if n > 1 else [T0, T0]
        elif cls == 'Mapping': shapes = ([T0] + self.path * 2)[:n + 1] if n > 1 else [T0, self.path[0]]
        else: shapes = ([T0] + self.path * 2)[:n + 1]
        if len(shapes) < n + 1: shapes += [shapes[-1]] * (n + 1 - len(shapes))
        return shapes
    def chain(self, st, cls, n, tag=''):
        """An encoding of n letters: (value, word, source, target)."""
        shapes = self.shapes(cls, n)
        kinds = ['Crush' if cls == 'Encoding' and i % 2 == 0 else 'EdgeFlip' for i in range(n)]
        ms = [self.letter(st, f'{tag}{"abcdefg"[i]}', shapes[i], shapes[i + 1], kinds[i]) for i in range(n)]
        e = self.construct(st, cls, [self.lst(st, ms[::-1])])
        return e, [self.of(st, m) for m in ms[::-1]], shapes[0], shapes[-1]
    def endo(self, st, names, cls='MappingClass'):
        e = self.construct(st, cls, [self.lst(st, [self.letter(st, n) for n in names])])
        return e, [(n, 1) for n in names]
    def operations(self):
        I, z = self.I, self.zeta
        flips = [l for l in range(-z, z) if flippable(self.tris, l)]
        self.path = [flip(self.tris, flips[0])]
        l = next(l for l in range(-z, z) if flippable(self.path[0], l) and max(l, ~l) != max(flips[0], ~flips[0])) if z > 3 else flips[0]
        self.path.append(flip(self.path[0], l))
        at = self.where
        for cls in ('Encoding', 'Mapping', 'MappingClass'):
            for n in (1, 2, 3, 4):
                for name in ('inverse', '__invert__'):
                    st = self.start()
                    e, w, s, t = self.chain(st, cls, n)
                    if e is None: continue
                    v = I.invoke(st, e, name)
                    self.judge(at(cls, name), f'the inverse of a {cls} of {n} moves', st, v, inv(w), t, s)
                    if v is not None and n in (1, 3): self.judge(at(cls, name), f'the inverse of the inverse of a {cls}', st, I.invoke(st, v, name), w, s, t)
                for kind in ('IntegralLamination', 'MultiCurve', 'HomologyClass'):
                    st = self.start()
                    e, w, s, t = self.chain(st, cls, n)
                    x = self.formal(st, [], s, kind)
                    self.judge_image(at(cls, '__call__'), f'the image of a {kind} under a {cls} of {n} moves', st, I.invoke(st, e, '__call__', [x]), w, t)
            for n in (1, 2, 3):
                st = self.start()
                e, w, s, t = self.chain(st, cls, n)
                self.judge(at(cls, 'promote'), f'a promoted {cls}', st, I.invoke(st, e, 'promote'), w, s, t)
                if cls != 'Encoding':
                    st = self.start()
                    e, w, s, t = self.chain(st, cls, n)
                    want = [(f'{l}{"" if sg > 0 else "-"}.{i}', 1) for l, sg in w for i in (2, 1)]
                    self.judge(at(cls, 'flip_mapping'), f'the expansion into flips of a {cls} of {n} moves', st, I.invoke(st, e, 'flip_mapping'), want, s, t)
                    st = self.start()
                    e, w, s, t = self.chain(st, cls, n)
                    self.pl_word(at(cls, 'pl_action'), f'the linear action of a {cls} of {n} moves', st, I.invoke(st, e, 'pl_action', [self.formal(st, [], s, 'MultiCurve')]), w)
        self.products()
        self.powers()
        self.slices()
    def pl_word(self, where, what, st, v, w):
        self.rep.count('maps compared')
        if v is None: self.rep.finding('word', where, f'{what} never returns'); return
        got = self.plword(st, v)
        if got is None: self.rep.count('undecided'); self.rep.note(f'{what}: not known'); return
        self.rep.count('maps decided')
        if [l for l, h in got] != w: self.rep.finding('word', where, f'{what} is composed in another order'); return
        if any(tuple(w[i + 1:]) != h for i, (l, h) in enumerate(got)): self.rep.finding('word', where, f'{what} takes the action of a move at another curve than the one it reaches')
    def mul(self, st, x, y):
        import ast
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        try: return I.binop(ast.Mult(), x, y, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    def products(self):
        I, at = self.I, self.where
        P = self.path
        T0 = self.tris
        for c1 in ('Encoding', 'Mapping', 'MappingClass'):
            for c2 in ('Encoding', 'Mapping', 'MappingClass'):
                for n1, n2 in ((1, 1), (1, 2), (2, 1), (3, 2)):
                    st = self.start()
                    e, w, s, t = self.chain(st, c2, n2)
                    back = [t] + [P[0]] * (n1 - 1) + [t if c1 == 'MappingClass' else s if c1 == 'Mapping' else P[1]]
                    ms = [self.letter(st, f'x{i}', back[i], back[i + 1], 'Crush' if c1 == 'Encoding' and not i else 'EdgeFlip') for i in range(n1)]
                    f = self.construct(st, c1, [self.lst(st, ms[::-1])])
                    if e is None or f is None: continue
                    self.judge(at('Encoding', '__mul__'), f'the product of a {c1} and a {c2}', st, self.mul(st, f, e), [self.of(st, m) for m in ms[::-1]] + w, s, back[-1])
        for names in (('a', 'b'), ('a', 'b', 'c')):
            for pows in ((1,), (2, -1), (-2, 3)):
                st = self.start()
                f, wf = self.endo(st, names)
                g, wg = self.endo(st, ('p', 'q'))
                p = I.invoke(st, f, '__pow__', [k(pows[0])])
                if p is None: self.rep.finding('word', at('MappingClass', '__pow__'), 'a power of a mapping class never returns'); continue
                want = times(wf, pows[0])
                if len(pows) > 1 and p is not None:
                    q = I.invoke(st, g, '__pow__', [k(pows[1])])
                    if q is None: continue
                    p = self.mul(st, p, q); want = want + times(wg, pows[1])
                self.judge(at('MappingClass', '__pow__'), 'a product of powers', st, p, want, T0, T0)
        st = self.start()
        f, wf = self.endo(st, ('a', 'b'))
        g, w, s, t = self.chain(st, 'Mapping', 2)
        h, wh = self.construct(st, 'MappingClass', [self.lst(st, [self.letter(st, 'u', t), self.letter(st, 'v', t)])]), [('u', 1), ('v', 1)]
        if self.repo.find_method('MappingClass', 'conjugate_by'):
            self.judge(at('MappingClass', 'conjugate_by'), 'a mapping class conjugated by a mapping', st, I.invoke(st, h, 'conjugate_by', [g]), inv(w) + wh + w, s, s)
            st = self.start()
            f, wf = self.endo(st, ('a', 'b')); g, wg = self.endo(st, ('p', 'q', 'r'))
            self.judge(at('MappingClass', 'conjugate_by'), 'a mapping class conjugated by another', st, I.invoke(st, f, 'conjugate_by', [g]), inv(wg) + wf + wg, T0, T0)
        for left, order in ((None, -1), (True, -1), (False, 1)):
            for n in (0, 1, 2, 3):
                st = self.start()
                fs = [self.endo(st, ('a', 'b')[:i % 2 + 1] if i < 2 else ('c',)) for i in range(n)]
                s0, w0 = self.endo(st, ('s',))
                try: fn = self.repo.function('curver.kernel.utilities', 'product')
                except AnalysisError: break
                kw = {'start': s0}
                if left is not None: kw['left'] = k(left)
                v = self.fn(st, fn, [self.lst(st, [f for f, w in fs])], kw)
                want = [l for f, w in fs[::order] for l in w] if n else w0
                self.judge(self.repo.where(fn), f'a product of {n} maps' + ('' if left is None else f' with left={left}'), st, v, want, T0, T0)
    def fn(self, st, node, args, kw):
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        try: return I.call(one(Fn(node, None, None, None)), list(args), kw, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    def powers(self):
        I, at = self.I, self.where
        T0 = self.tris
        for names in (('a',), ('a', 'b'), ('a', 'b', 'a')):
            for n in range(-9, 10):
                st = self.start()
                f, w = self.endo(st, names)
                self.judge(at('MappingClass', '__pow__'), f'the power {n} of a mapping class', st, I.invoke(st, f, '__pow__', [k(n)]), times(w, n), T0, T0)
                for kind in ('IntegralLamination', 'HomologyClass') if abs(n) < 5 else ('MultiCurve',):
                    for style in ('word', 'position'):
                        st = self.start()
                        f, w = self.endo(st, names)
                        x = self.formal(st, [], T0, kind)
                        v = I.invoke(st, f, '__call__', [x], {'power': k(n)}) if style == 'word' else I.invoke(st, f, '__call__', [x, k(n)])
                        self.judge_image(at('MappingClass', '__call__'), f'the image under the power {n} of a mapping class', st, v, times(w, n), T0)
    def slices(self):
        I, at = self.I, self.where
        for cls in ('Encoding', 'Mapping', 'MappingClass'):
            for n in (1, 2, 3):
                for i in [None] + list(range(-n, n + 1)):
                    for j in [None] + list(range(-n, n + 1)):
                        st = self.start()
                        e, w, s, t = self.chain(st, cls, n)
                        a = 0 if i is None else i if i >= 0 else n + i
                        b = n if j is None else j if j >= 0 else n + j
                        sl = slice(i, j)
                        v = self.get(st, e, self.slice(st, i, j))
                        if b < a: continue
                        shapes = self.shapes(cls, n)
                        self.judge(at('Encoding', '__getitem__'), f'part of a {cls}' if a < b else f'the empty part of a {cls}', st, v, w[a:b], shapes[n - b], shapes[n - a])
                for i in range(-n, n):
                    st = self.start()
                    e, w, s, t = self.chain(st, cls, n)
                    m = I.invoke(st, e, '__getitem__', [k(i)])
                    self.rep.count('maps compared')
                    l = self.of(st, m)
                    if m is None: self.rep.finding('word', at('Encoding', '__getitem__'), f'a move of a {cls} never returns')
                    elif l is None: self.rep.count('undecided')
                    elif l != w[i]: self.rep.finding('word', at('Encoding', '__getitem__'), f'a move of a {cls} is another one of its moves')
    def get(self, st, e, sl): return self.I.invoke(st, e, '__getitem__', [sl])
    def slice(self, st, i, j):
        I = self.I
        x = lambda v: one(K('NoneType', None)) if v is None else k(v)
        self.n += 1
        return I.heap(st, ('c05s', self.n), Rec('inst', org='an argument', cls='slice', fields={'start': x(i), 'stop': x(j), 'step': x(None)}))
    # ---- moves and their inverses
    def creations(self, tier):
        I, z, at = self.I, self.zeta, self.where
        labels = list(range(-z, z))
        flips = [l for l in labels if flippable(self.tris, l)]
        T0 = self.tris
        for l in flips:
            T1 = flip(T0, l)
            self.linked('edgeflip', 'the flip of an edge', lambda st: [self.tri(st, T0), self.tri(st, T1), E(l)], T0, T1)
        sup = lambda l: set(t for t in T0 if l in t or ~l in t)
        for ls in [[l] for l in flips] + [[a, b] for a in flips for b in flips if max(a, ~a) < max(b, ~b) and not sup(a) & sup(b)]:
            T1 = T0
            for l in ls: T1 = flip(T1, l)
            self.linked('multiedgeflip', 'a simultaneous flip', lambda st: [self.tri(st, T0), self.tri(st, T1), self.lst(st, [E(l) for l in ls])], T0, T1)
        for m in symmetric(T0)[1]: self.isometry(m, T0)
        for m in self.relabels(): self.isometry(m, self.image(m))
        for name, cls in (('twist', 'Twist'), ('halftwist', 'HalfTwist')):
            for p in (1, -1, 2, -3):
                st = self.start()
                old = I.contracts.get('new:' + cls)
                I.contracts['new:' + cls] = self.turn
                x = self.formal(st, [('gamma', 1)], T0, 'Curve' if cls == 'Twist' else 'Arc')
                m = self.function(st, name, [x, k(p)])
                if m is not None: v = I.field_of(st, m, '_inverse')
                if m is None: self.rep.finding('inverse', at(None, name), f'making a move of class {cls} never returns')
                else:
                    for y, q, what in ((m, p, 'the move'), (v, -p, 'the inverse')):
                        self.rep.count('maps compared')
                        w = self.turned(st, y) if y else None
                        if w is None: self.rep.count('undecided')
                        elif w[1] != q or w[0] != ('gamma', 1): self.rep.finding('inverse', at(None, name), f'{what} that create.{name} gives has another {"power" if w[1] != q else "centre"}')
                    if v is not None:
                        w = I.field_of(st, v, '_inverse')
                        if w is not None and len(w) == 1 and I.sole(w) != I.sole(m): self.rep.finding('inverse', at(None, name), f'the inverse that create.{name} gives is linked to another move')
                # their own inverse
                st = self.start()
                t = self.tri(st)
                x = self.formal(st, [('gamma', 1)], T0, 'Curve' if cls == 'Twist' else 'Arc')
                self.n += 1
                m = I.heap(st, ('c05i', self.n), Rec('inst', org='an argument', cls=cls, fields={'curve' if cls == 'Twist' else 'arc': x, 'power': k(p), 'source_triangulation': t, 'target_triangulation': t, 'zeta': k(z),
                    '_inverse': self.turn(I, st, cls, [x, k(-p)], {}, I.NODE)}))
                v = I.invoke(st, m, 'inverse')
                w = self.turned(st, v) if v else None
                self.rep.count('maps compared')
                if v is None: self.rep.finding('inverse', at(cls, 'inverse'), f'the inverse of a move of class {cls} never returns')
                elif w is None: self.rep.count('undecided')
                elif w != (('gamma', 1), -p): self.rep.finding('inverse', at(cls, 'inverse'), f'the inverse of a move of class {cls} has another power or centre')
                if old is None: I.contracts.pop('new:' + cls)
                else: I.contracts['new:' + cls] = old
        for name, cls, inverse in (('crush', 'Crush', 'Lift'), ('lineartransformation', 'LinearTransformation', 'LinearTransformation')):
            if not flips: break
            T1 = flip(T0, flips[0])
            def mat(st, a): return self.lst(st, [self.lst(st, [k(a) if i == j else k(0) for j in range(z)], 'nd') for i in range(z)], 'nd')
            def args(st):
                a = [self.tri(st), self.tri(st, T1)]
                return a + ([self.formal(st, [('gamma', 1)], T0, 'Curve'), mat(st, 1)] if cls == 'Crush' else [mat(st, 1), mat(st, 2)])
            self.linked(name, f'a move of class {cls}', args, T0, T1)
    def linked(self, name, what, args, S, D):
        """create.<name>: a move and its inverse, each the inverse of the other, with ends swapped."""
        I, at = self.I, self.where(None, name)
        st = self.start()
        m = self.function(st, name, args(st))
        self.rep.count('maps compared')
        if m is None: self.rep.finding('inverse', at, f'making {what} never returns'); return None
        v = I.invoke(st, m, 'inverse')
        if v is None: self.rep.finding('inverse', at, f'the inverse of {what} never returns'); return None
        e = self.ends(st, m)
        if e is not None and e != (canon(S), canon(D)): self.rep.finding('inverse', at, f'{what} has other ends')
        if len(v) != 1 or not isinstance(I.sole(v), Ref): 
            if v == one(K('NoneType', None)): self.rep.finding('inverse', at, f'{what} has no inverse')
            else: self.rep.count('undecided')
            return None
        e = self.ends(st, v)
        if e is None: self.rep.count('undecided'); return None
        self.rep.count('maps decided')
        if e != (canon(D), canon(S)): self.rep.finding('inverse', at, f'the inverse of {what} has other ends than the ends of the move swapped')
        w = I.invoke(st, v, 'inverse')
        if w is None or len(w) == 1 and I.sole(w) != I.sole(m): self.rep.finding('inverse', at, f'the inverse of the inverse of {what} is another move')
        a, b = (st.heap[I.sole(x).oid].fields for x in (m, v))
        if name in ('edgeflip', 'multiedgeflip'):
            def at_(f):
                if name == 'edgeflip': ls = I.labels_of(st, self.lst(st, [f.get('edge', BOT)]))
                else: ls = I.labels_of(st, f.get('edges', BOT))
                return None if ls is None else sorted(max(l, ~l) for l in ls)
            x, y = at_(a), at_(b)
            if x is None or y is None: self.rep.count('undecided')
            elif x != y: self.rep.finding('inverse', at, f'the inverse of {what} flips another edge')
            for f, S1, D1 in ((a, S, D), (b, D, S)):
                ls = [I.labels_of(st, self.lst(st, [f.get('edge', BOT)]))] if name == 'edgeflip' else [I.labels_of(st, f.get('edges', BOT))]
                if ls[0] is None: continue
                t = canon(S1)
                for l in ls[0]: t = flip(t, l) if flippable(t, l) else t
                if t != canon(D1): self.rep.finding('inverse', at, f'{what} or its inverse does not lead from its one end to the other')
            for x, S1, D1, called in ((m, S, D, what), (v, D, S, f'the inverse of {what}')):
                cls = st.heap[I.sole(x).oid].cls
                if self.repo.find_method(cls, 'flip_mapping') is None: continue
                w = self.where(cls, 'flip_mapping')
                self.rep.count('maps compared')
                r = I.invoke(st, x, 'flip_mapping')
                if r is None: self.rep.finding('word', w, f'writing {called} as flips never returns'); continue
                e = self.ends(st, r)
                if e is None: self.rep.count('undecided'); self.rep.note(f'{called} written as flips: its ends are not known'); continue
                self.rep.count('maps decided')
                if e != (canon(S1), canon(D1)): self.rep.finding('word', w, f'{called} written as flips has other ends'); continue
                its = I.items(st, I.field_of(st, r, 'sequence') or BOT)
                if its is None: self.rep.count('undecided'); continue
                done, t = [], S1
                for y in reversed(its):
                    g = st.heap[I.sole(y).oid] if len(y) == 1 and isinstance(I.sole(y), Ref) else None
                    if g is None or g.kind != 'inst': done = None; break
                    ls = I.labels_of(st, self.lst(st, [g.fields['edge']])) if 'edge' in g.fields else I.labels_of(st, g.fields.get('edges', BOT))
                    if ls is None: done = None; break
                    done += [max(l, ~l) for l in ls]
                z1 = at_(st.heap[I.sole(x).oid].fields)
                if done is None or z1 is None: self.rep.count('undecided'); self.rep.note(f'{called} written as flips: its moves are not known')
                elif sorted(done) != z1: self.rep.finding('word', w, f'{called} written as flips flips other edges')
        if name in ('crush', 'lineartransformation'):
            want = {'crush': (('Crush', None), ('Lift', 1)), 'lineartransformation': (('LinearTransformation', 1), ('LinearTransformation', 2))}[name]
            for x, (c, d) in zip((m, v), want):
                r = st.heap[I.sole(x).oid]
                if r.cls != c: self.rep.finding('inverse', at, f'{what} or its inverse is of another class')
                if d is not None:
                    rows = I.items(st, r.fields.get('matrix', BOT))
                    row = I.items(st, rows[0]) if rows else None
                    if row and len(row[0]) == 1 and isinstance(I.sole(row[0]), K) and I.sole(row[0]).v != d: self.rep.finding('inverse', at, f'{what} or its inverse has the matrix of the other')
        return m, v, st
    def turn(self, I, st, cls, args, kw, node):
        """A new twist or half twist: only its centre and power are of interest."""
        x = args[0] if args else kw.get('curve', kw.get('arc', TOP))
        p = args[1] if len(args) > 1 else kw.get('power', TOP)
        t = I.field_of(st, x, 'triangulation') if len(x) == 1 else None
        if t is None: return None
        self.n += 1
        return I.heap(st, ('c05t', self.n), Rec('inst', org='fresh', cls=cls, fields={'centre': x, 'power': p, 'source_triangulation': t, 'target_triangulation': t, 'zeta': k(self.zeta), '_inverse': one(K('NoneType', None)), 'turn': k(1)}))
    def turned(self, st, v):
        """The centre and the power of a twist made by turn."""
        I = self.I
        if not v or len(v) != 1 or not I.field_of(st, v, 'turn'): return None
        h, p = self.hist(st, I.field_of(st, v, 'centre')), I.field_of(st, v, 'power')
        t = I.term(p)
        if h is None or len(h) != 1 or t is None or not T.is_const(t): return None
        return h[0], t[2]
    def isometry(self, m, tgt):
        I, z, T0 = self.I, self.zeta, self.tris
        what = 'an isometry'
        got = self.linked('isometry', what, lambda st: [self.tri(st), self.tri(st, tgt), self.dct_(st, m)], T0, tgt)
        if got is None: return
        mv, iv, st = got
        for x, S, D, f in ((mv, T0, tgt, m), (iv, tgt, T0, {b: a for a, b in m.items()})):
            for cls, attr in (('IntegralLamination', 'geometric'), ('MultiCurve', 'geometric'), ('HomologyClass', 'algebraic')):
                n = 'apply_homology' if cls == 'HomologyClass' else 'apply_lamination'
                at = self.where('Isometry', n)
                w = self.formal(st, [('w', 1)], S, cls)
                r = I.invoke(st, x, n, [w])
                self.rep.count('images compared')
                if r is None: self.rep.finding('word', at, f'the image of a {cls} under an isometry never returns'); continue
                its = I.items(st, I.field_of(st, r, attr) or BOT) if len(r) == 1 else None
                ts = [I.term(i) for i in its] if its is not None else []
                if len(ts) != z or None in ts: self.rep.count('undecided'); continue
                self.rep.count('images decided')
                want = [None] * z
                for a, b in f.items():
                    if a < 0: continue
                    s = T.sym((('F', (('w', 1),)), a))
                    want[max(b, ~b)] = s if b >= 0 or cls != 'HomologyClass' else T.scale(s, -1)
                if ts != want: self.rep.finding('word', at, f'an isometry moves the {"weights" if cls != "HomologyClass" else "coefficients"} to other edges than its label map says')
                D1 = I.shape_of(st, I.field_of(st, r, 'triangulation') or BOT)
                if D1 is not None and canon(D1) != canon(D): self.rep.finding('word', at, 'the image under an isometry is on another triangulation')
        # the linear action
        p = I.invoke(st, mv, 'pl_action', [self.formal(st, [('w', 1)], T0, 'MultiCurve')])
        at = self.where('Isometry', 'pl_action')
        self.rep.count('maps compared')
        if p is None: self.rep.finding('word', at, 'the linear action of an isometry never returns'); return
        rows = I.items(st, I.field_of(st, p, 'action') or BOT) if len(p) == 1 else None
        rows = [I.items(st, r) for r in rows] if rows is not None else [None]
        if None in rows: self.rep.count('undecided'); return
        vals = [[I.sole(c).v if len(c) == 1 and isinstance(I.sole(c), K) else None for c in r] for r in rows]
        if any(None in r for r in vals): self.rep.count('undecided'); return
        self.rep.count('maps decided')
        want = [[0] * z for _ in range(z)]
        for a, b in m.items():
            if a >= 0: want[max(b, ~b)][a] = 1
        if vals != want: self.rep.finding('word', at, 'the linear action of an isometry is another matrix than that of its label map')
    # ---- conjugating back what is done to a short representative
    def contract(self, names, f):
        """Give f as what the named methods of lamination classes answer; the former contracts are returned."""
        old = {}
        for c in self.repo.classes:
            for n in names:
                if n in self.repo.classes[c].methods and self.repo.is_sub(c, 'Lamination'):
                    old[f'{c}.{n}'] = self.I.contracts.get(f'{c}.{n}')
                    self.I.contracts[f'{c}.{n}'] = f
        return old
    def restore(self, old):
        for q, f in old.items():
            if f is None: self.I.contracts.pop(q, None)
            else: self.I.contracts[q] = f
    def conjugates(self, tier):
        I, T0, P = self.I, self.tris, self.path
        S1 = P[1]
        def components_of(st, mult):
            cls = self.piece
            return self.dct(st, [(self.formal(st, [(f'gamma{i}', 1)], S1, cls), k(m)) for i, m in enumerate(mult)])
        def shorten(I, st, f, args, kw, node):
            h = self.hist(st, args[0])
            if h is None: return TOP
            if h == [('delta', 1)]:
                c = self.construct(st, 'Mapping', [self.lst(st, [self.letter(st, 'd', P[0], S1), self.letter(st, 'c', T0, P[0])])])
                return self.lst(st, [self.formal(st, [('short', 1)], S1, I.heap_cls(args[0], st)), c], 'tuple')
            at = canon(I.shape_of(st, I.field_of(st, args[0], 'triangulation')))
            name = ('post', tuple(h))
            post = self.construct(st, 'Mapping', [self.lst(st, [self.letter(st, name, at, flip(at, next(l for l in range(-self.zeta, self.zeta) if flippable(at, l))))])])
            return self.lst(st, [self.formal(st, [('rest', 1)], T0), post], 'tuple')
        I.heap_cls = lambda v, st: st.heap[I.sole(v).oid].cls
        def comps(I, st, f, args, kw, node): return components_of(st, self.mult)
        def peripheral(I, st, f, args, kw, node):
            h = self.hist(st, args[0])
            if h and h[-1][0] in self.boring: return k(True)
            return k(False)
        def crush(I, st, f, args, kw, node):
            h = self.hist(st, args[0])
            if h is None or h[-1][0] == 'delta': return None
            at = canon(I.shape_of(st, I.field_of(st, args[0], 'triangulation')))
            if h[-1][0] in self.boring: return self.construct(st, 'MappingClass', [self.lst(st, [self.letter(st, 'nothing', at)])])
            return self.construct(st, 'Encoding', [self.lst(st, [self.letter(st, ('crush', tuple(h)), at, at, 'Crush')])])
        def as_lamination(I, st, f, args, kw, node):
            at = I.shape_of(st, args[0])
            return TOP if at is None else self.formal(st, [('tri', 1)], at, 'MultiArc')
        old = self.contract(['shorten'], shorten)
        old.update(self.contract(['components'], comps))
        old.update(self.contract(['is_peripheral'], peripheral))
        saved = {q: I.contracts.get(q) for q in ('new:Twist', 'new:HalfTwist', 'Curve.crush', 'Triangulation.as_lamination', 'Lamination.has_distinct_endpoints', 'MultiArc.has_distinct_endpoints', 'Arc.has_distinct_endpoints')}
        for q in saved: I.contracts[q] = {'new:Twist': self.turn, 'new:HalfTwist': self.turn, 'Curve.crush': crush, 'Triangulation.as_lamination': as_lamination}.get(q, lambda I, st, f, args, kw, node: k(True))
        self.turns = True
        try:
            c = [('d', 1), ('c', 1)]
            for cls, name, piece in (('MultiCurve', 'encode_twist', 'Curve'), ('Curve', 'encode_twist', 'Curve'), ('MultiArc', 'encode_halftwist', 'Arc'), ('Arc', 'encode_halftwist', 'Arc')):
                if self.repo.find_method(cls, name) is None: continue
                self.piece = piece
                for mult in ((1,), (3,), (1, 2), (2, 1, 1)) if cls == 'MultiCurve' else ((1,),):
                    for boring in (set(), {'gamma0'}, {f'gamma{i}' for i in range(len(mult))} | {'delta'}) if cls == 'MultiCurve' else (set(),):
                        for p in (None, 1, -1, 2, -3, 0):
                            self.mult, self.boring = mult, boring
                            st = self.start()
                            x = self.formal(st, [('delta', 1)], T0, cls)
                            q = 1 if p is None else p
                            tw = []
                            for i, m in enumerate(mult):
                                if f'gamma{i}' not in boring: tw += [(('turn', f'gamma{i}'), 1 if q > 0 else -1)] * abs(q * (m if piece == 'Curve' else 1))
                            for style in ('position', 'word') if p is not None else ('position',):
                                v = I.invoke(st, x, name, [k(p)] if p is not None and style == 'position' else [], {'power': k(p)} if style == 'word' else None)
                                self.judge(self.where(cls, name), f'{name} of a {cls}' + (' of the power zero' if q == 0 else ''), st, v, inv(c) + tw + c, T0, T0, norm=commuting)
            tri = [('d', 1), ('c', 1), ('tri', 1)]
            for n in (1, 2, 3):
                for boring in (set(), {'gamma0'}):
                    self.piece, self.mult, self.boring = 'Curve', (1,) * n, boring
                    st = self.start()
                    x = self.formal(st, [('delta', 1)], T0, 'MultiCurve')
                    v = I.invoke(st, x, 'crush')
                    def wants(order):
                        w = []
                        for i in order:
                            if f'gamma{i}' in boring: w = w + []; continue
                            w = [(('crush', tuple(w + [(f'gamma{i}', 1)])), 1)] + w
                        return [(('post', tuple(w + tri)), 1)] + w + c
                    from itertools import permutations
                    options = [wants(o) for o in permutations(range(n))]
                    self.rep.count('maps compared')
                    at = self.where('MultiCurve', 'crush')
                    if v is None: self.rep.finding('word', at, 'the crush of a MultiCurve never returns'); continue
                    got = self.word(st, v)
                    if got is None: self.rep.count('undecided'); self.rep.note('the crush of a MultiCurve: the moves are not known'); continue
                    self.rep.count('maps decided')
                    if reduced(got) not in [reduced(o) for o in options]: self.rep.finding('word', at, f'the crush of a MultiCurve is another map ({self.name})')
        finally:
            self.turns = False
            self.restore(old); self.restore(saved)
    turns = False
    # ---- twists given by an edge
    def edges_for(self, loop):
        vs = vertices(self.tris)
        of = {l: v for v in vs for l in v}
        return [l for l in range(-self.zeta, self.zeta) if (of[l] == of[~l]) == loop]
    def real(self, st, cls, l, p):
        """A twist or half twist about what the edge l gives, made by the library's own constructor."""
        x = self.I.invoke(st, self.tri(st), 'edge_curve' if cls == 'Twist' else 'edge_arc', [E(l)])
        if x is None or len(x) != 1 or not isinstance(self.I.sole(x), Ref): return None, None
        self.parallels[self.I.sole(x).oid] = l
        return self.construct(st, cls, [x, k(p)]), x
    def weights_of(self, st, v, attr='geometric'):
        I = self.I
        its = I.items(st, I.field_of(st, v, attr) or BOT) if v and len(v) == 1 else None
        ts = [I.term(i) for i in its] if its is not None else [None]
        return None if None in ts else ts
    def twists(self, tier):
        I, T0, z = self.I, self.tris, self.zeta
        peri = self.contract(['is_short'], lambda I, st, f, args, kw, node: k(True))
        vs = vertices(T0)
        for cls, edges in (('Twist', self.edges_for(True)), ('HalfTwist', self.edges_for(False))):
            if tier == 'quick' and len(edges) > 6: edges = edges[::4] + edges[1:2]
            at = self.where(cls, '__init__')
            for l in edges:
                if cls == 'Twist' and self.trivial(l): continue
                words = {}
                for p in (1, -1, 2, -3, 4):
                    st = self.start()
                    m, x = self.real(st, cls, l, p)
                    if x is None: self.rep.note(f'{cls}: the curve or arc is not known'); continue
                    what = f'a {cls} about {"an edge" if l >= 0 else "a reversed edge"}'
                    if m is None:
                        self.rep.count('maps compared'); self.rep.finding('twist', at, f'making {what} never returns'); continue
                    e = I.field_of(st, m, 'encoding')
                    if e is None: self.rep.note(f'{cls}: no encoding is kept'); continue
                    w = self.word(st, e)
                    if w is None: self.rep.count('undecided'); self.rep.note(f'{what}: its flips are not known'); continue
                    words[p] = w
                    if self.ends(st, e) not in (None, (canon(T0), canon(T0))): self.rep.finding('twist', at, f'{what} has other ends than its triangulation')
                    self.judge(self.where(cls, 'flip_mapping'), f'{what} written in flips', st, I.invoke(st, m, 'flip_mapping'), times(w, p), T0, T0)
                    self.rep.count('maps compared')
                    if p in words and 1 in words and words[1] != w: self.rep.finding('twist', at, f'{what} takes other flips for other powers')
                    # what it twists about stays where it is
                    r = I.invoke(st, e, '__call__', [x])
                    a, b = self.weights_of(st, x), self.weights_of(st, r) if r is not None else None
                    self.rep.count('images compared')
                    if r is None: self.rep.finding('twist', at, f'{what} applied to its own centre never returns')
                    elif a is None or b is None: self.rep.count('undecided'); self.rep.note(f'{what}: the image of its centre is not known')
                    elif a != b: self.rep.finding('twist', at, f'{what} moves its own centre')
                    else: self.rep.count('images decided')
                    self.on_homology(st, cls, m, e, p, what)
                    sg = I.field_of(st, m, 'signed_encoding')
                    if sg is not None: self.judge(at, f'{what} in its own direction', st, sg, w if p > 0 else inv(w), T0, T0)
                    if cls == 'HalfTwist': self.half_power(st, m, e, w, p, what)
        self.restore(peri)
    def trivial(self, l):
        """Whether the curve along a loop edge goes round one vertex or bounds nothing."""
        vs = vertices(self.tris)
        v = next(v for v in vs if l in v)
        i, j = v.index(l), v.index(~l)
        n = (j - i) % len(v)
        return n <= 1 or n == len(v) - 1
    def on_homology(self, st, cls, m, e, p, what):
        """The action on homology is that of the flips, up to boundaries of triangles."""
        from check_c12 import span_contains, Flips
        I, z = self.I, self.zeta
        own = self.repo.find_method(cls, 'apply_homology')
        if own is None or abs(p) > (3 if cls == 'Twist' else 1): return
        at = self.where(cls, 'apply_homology')
        was = self.I.contracts.get('MultiCurve.encode_twist'), self.I.contracts.get('Curve.encode_twist')
        h = I.homology(st, self.tris, key='h')
        a = I.invoke(st, m, 'apply_homology', [h])
        q = I.invoke(st, e, '__pow__', [k(p)])
        b = I.invoke(st, q, '__call__', [h]) if q is not None else None
        self.rep.count('images compared')
        if a is None or b is None:
            if a is None and b is not None: self.rep.finding('twist', at, f'{what} applied to a homology class never returns')
            return
        x, y = self.weights_of(st, a, 'algebraic'), self.weights_of(st, b, 'algebraic')
        if x is None or y is None: self.rep.count('undecided'); self.rep.note(f'{what}: the image of a homology class is not known'); return
        bnd = [Flips.chain(t, lambda l: max(l, ~l)) for t in self.tris]
        if any(t[0] != 'lin' for t in x + y): self.rep.count('undecided'); return
        for j in range(z):
            v = {}
            for i in range(z):
                c = dict(x[i][1]).get(('h', j), 0) - dict(y[i][1]).get(('h', j), 0)
                if c: v[i] = c
            if not span_contains(bnd, v): self.rep.finding('twist', at, f'the image of a homology class under {what} is another class than its flips give'); return
        self.rep.count('images decided')
    def half_power(self, st, m, e, w, p, what):
        """A power of a half twist is made of half twists and of twists about its boundary, which count twice."""
        I = self.I
        v = I.field_of(st, m, 'encoding_power')
        if v is None: self.rep.note('no encoding of the power is kept'); return
        at = self.where('HalfTwist', '__init__')
        got = self.word(st, v)
        self.rep.count('maps compared')
        if got is None: self.rep.count('undecided'); self.rep.note(f'{what}: the moves of its power are not known'); return
        full = []
        for l in got: full += times(w, 2) if l == ('boundary', 1) else inv(times(w, 2)) if l == ('boundary', -1) else [l]
        self.rep.count('maps decided')
        if reduced(full) != reduced(times(w, p)): self.rep.finding('twist', at, f'the power that is applied for {what} is another power'); self.rep.note(f'{p}: {len(got)}')
    def boundary_twist(self, I, st, f, args, kw, node):
        h = self.hist(st, args[0])
        if h is None or h[-1:] != [('rim', 1)]: return None
        p = args[1] if len(args) > 1 else kw.get('power', k(1))
        t = I.term(p)
        if t is None or not T.is_const(t): return TOP
        n = int(t[2])
        T0 = canon(I.shape_of(st, I.field_of(st, args[0], 'triangulation')))
        if n == 0: return self.construct(st, 'MappingClass', [self.lst(st, [self.iso(st, T0, T0, {x: x for x in range(-self.zeta, self.zeta)})])])
        return self.construct(st, 'MappingClass', [self.lst(st, [self.letter(st, 'boundary', T0) if n > 0 else I.field_of(st, self.letter(st, 'boundary', T0), '_inverse')] * abs(n))])
    # ---- powers of twists applied to laminations
    def accounts(self, tier):
        """A power of a twist applied to a lamination: the single twists and the multiples of the curve that are added must
        add up to the power, and multiples may be taken away only as far as the slope allows."""
        I, z, T0 = self.I, self.zeta, self.tris
        INTER = 5
        cs = [T.sym(('c', i)) for i in range(z)]
        at = self.where('Twist', 'apply_lamination')
        def peel(st, v):
            ts = self.weights_of(st, v)
            for h in self.histories or ():
                if ts is None: break
                ns = set()
                for i in range(z):
                    d = T.sub(ts[i], T.sym((('F', h), i))) if ts[i][0] == 'lin' else None
                    if d is None or d[2] or len(d[1]) > 1 or d[1] and d[1][0][0] != ('c', i): break
                    ns.add(Q(d[1][0][1]) if d[1] else Q(0))
                else:
                    if len(ns) == 1: return ([('add', ns.pop() / INTER)] if ns != {0} else []) + list(h)
            return None
        def step(I, st, f, args, kw, node):
            x = args[0]
            d = I.field_of(st, x, 'direction') if len(x) == 1 else None
            if d is None: return None
            lam = args[1] if len(args) > 1 else kw.get('other', TOP)
            p = args[2] if len(args) > 2 else kw.get('power', k(1))
            h, t = peel(st, lam), I.term(p)
            if h is None or t is None or not T.is_const(t): return TOP
            n = int(t[2]) * I.sole(d).v
            return self.formal(st, [('go', 1 if n > 0 else -1)] * abs(n) + h, T0, st.heap[I.sole(lam).oid].cls)
        calls = {f'{c}.__call__': I.contracts.get(f'{c}.__call__') for c in self.repo.classes if self.repo.is_sub(c, 'Encoding') and '__call__' in self.repo.classes[c].methods}
        for q in calls: I.contracts[q] = step
        old = self.contract(['intersection'], lambda I, st, f, args, kw, node: k(self.inter))
        old.update(self.contract(['slope'], lambda I, st, f, args, kw, node: num('frac', t=T.const(self.slope)) if self.slope.denominator > 1 else num('frac', t=T.const(self.slope.numerator))))
        slopes = [Q(0), Q(1, 2), Q(-1, 2), Q(1), Q(-1), Q(5, 3), Q(-5, 3), Q(2), Q(-2), Q(7, 2), Q(-7, 2), Q(6), Q(-6)]
        try:
            for cls in ('IntegralLamination', 'MultiCurve'):
                for p in list(range(-9, 0)) + list(range(1, 10)):
                    for s in slopes if cls == 'IntegralLamination' else slopes[5:7]:
                        for inter in (INTER, 0) if s == slopes[0] else (INTER,):
                            self.inter, self.slope = inter, s
                            st = self.start()
                            t = self.tri(st)
                            curve = I.vector(st, 'Curve', 'geometric', T0, [num('int', t=c) for c in cs], ('c05c',))
                            def enc(d):
                                self.n += 1
                                return I.heap(st, ('c05g', self.n), Rec('inst', org='an argument', cls='MappingClass', fields={'direction': k(d), 'source_triangulation': t, 'target_triangulation': t, 'zeta': k(z)}))
                            self.n += 1
                            m = I.heap(st, ('c05a', self.n), Rec('inst', org='an argument', cls='Twist', fields={'curve': curve, 'power': k(p), 'power_sign': k(1 if p > 0 else -1), 'source_triangulation': t,
                                'target_triangulation': t, 'zeta': k(z), 'encoding': enc(1), 'signed_encoding': enc(1 if p > 0 else -1)}))
                            v = I.invoke(st, m, 'apply_lamination', [self.formal(st, [('w', 1)], T0, cls)])
                            self.rep.count('images compared')
                            what = f'the power of a twist applied to a {cls}'
                            if v is None: self.rep.finding('power', at, f'{what} never returns'); continue
                            h = peel(st, v)
                            if h is None: self.rep.count('undecided'); self.rep.note(f'{what}: the image is not known'); continue
                            self.rep.count('images decided')
                            h = h[::-1][1:]
                            if not inter:
                                if abs(p) > 1 and any(a == 'add' for a, _ in h): self.rep.finding('power', at, f'{what} that is disjoint from the curve adds the curve')
                                continue
                            why = self.total(h, p, s)
                            if why: self.rep.finding('power', at, f'{what}: {why}'); self.rep.note(f'power {p}, slope {s}: {h}')
        finally: self.restore(old); self.restore(calls)
    @staticmethod
    def total(h, p, s):
        """Whether the steps amount to the power, starting from slope s."""
        d = 1 if p > 0 else -1
        towards = p * s < 0 or s == 0
        done, single = 0, 0
        for a, n in h:
            if a == 'go': done += n; single += 1
            elif n < 0:
                if single or not towards: return 'multiples of the curve are taken away where the weights grow'
                if -n > abs(s) - abs(done): return 'multiples of the curve are taken away beyond where the weights are known to shrink'
                done += -n * d
            else:
                if single < 2 and towards or not single and abs(s) < 1: return 'multiples of the curve are added where the weights do not grow'
                done += n * d
        return None if done == p else 'another power is applied'
    # ---- isometries moved to the front
    def combined(self, tier):
        I, T0, z = self.I, self.tris, self.zeta
        if self.repo.find_method('Mapping', 'combine_isometries') is None: return
        at = self.where('Mapping', 'combine_isometries')
        labels = range(-z, z)
        rel = [dict(m) for m in self.relabels()[:3]] + [m for m in symmetric(T0)[1] if any(a != b for a, b in m.items())][:3]
        def first(T, skip=()): return [l for l in labels if flippable(T, l) and l not in skip]
        plans = []
        for m in rel:
            T1 = self.image(m)
            for l in first(T1)[::2][:3]:
                plans.append([('iso', T0, m), ('flip', T1, l)])
                T2 = flip(T1, l)
                for m2 in [rel[0], rel[-1]]:
                    plans.append([('iso', T0, m), ('flip', T1, l), ('iso', T2, m2)])
                    T3 = self.image(m2, T2)
                    for l2 in first(T3)[-2:]: plans.append([('iso', T0, m), ('flip', T1, l), ('iso', T2, m2), ('flip', T3, l2)])
            for l in first(T0)[:2]:
                T2 = flip(T0, l)
                plans.append([('flip', T0, l), ('iso', T2, m), ('iso', self.image(m, T2), rel[0])])
            for l in self.loops_of(T1)[:2] + self.loops_of(T1)[-1:]: plans.append([('iso', T0, m), ('twist', T1, l)])
            sup = lambda t, l: set(x for x in t if l in x or ~l in x)
            pairs = [(a, b) for a in first(T1) for b in first(T1) if max(a, ~a) < max(b, ~b) and not sup(T1, a) & sup(T1, b)]
            for ls in [(l,) for l in first(T1)[1:3]] + pairs[:1] + pairs[-1:]: plans.append([('iso', T0, m), ('multi', T1, ls)])
        old = {q: I.contracts.get(q) for q in I.contracts if q.split('.')[-1] in ('encode_twist', 'encode_halftwist', 'parallel')}
        for q in old: I.contracts[q] = {'encode_twist': self.twist, 'encode_halftwist': self.halftwist, 'parallel': self.parallel}[q.split('.')[-1]]
        try:
            many = len(plans) // (30 if z <= 3 else 16)
            for plan in plans[::many] if tier == 'quick' and many > 1 else plans: self.combine(at, plan)
        finally: self.restore(old)
    def loops_of(self, T):
        vs = vertices(T)
        of = {l: v for v in vs for l in v}
        return [l for l in range(-self.zeta, self.zeta) if of[l] == of[~l]]
    def combine(self, at, plan):
        I, T0 = self.I, self.tris
        st = self.start()
        ms = []
        for kind, t, x in plan:
            if kind == 'iso': m = self.iso(st, t, self.image(x, t), x)
            elif kind == 'flip': m = self.eflip(st, t, x)
            elif kind == 'multi': m = self.mflip(st, t, x)
            else: m = self.about(st, 'Twist', t, x, k(2))
            if m is None: return
            ms.append(m)
        end = canon(I.shape_of(st, I.field_of(st, ms[-1], 'target_triangulation')))
        e = self.construct(st, 'MappingClass' if end == canon(T0) else 'Mapping', [self.lst(st, ms[::-1])])
        if e is None: return
        what = 'the same map with its isometries combined'
        self.rep.count('maps compared')
        v = I.invoke(st, e, 'combine_isometries')
        if v is None: self.rep.finding('word', at, f'{what} never returns'); self.rep.note(str(plan)); return
        its = I.items(st, I.field_of(st, v, 'sequence') or BOT) if len(v) == 1 else None
        ends = self.ends(st, v) if its is not None else None
        if ends is None: self.rep.count('undecided'); return
        if ends != (canon(T0), end): self.rep.finding('word', at, f'{what} has other ends'); return
        if plan[-1][0] == 'twist':
            back = {b: a for a, b in plan[0][2].items()}
            want = self.about(st, 'Twist', T0, back[plan[-1][2]], k(2))
            a = [m for m in its if st.heap[I.sole(m).oid].cls == 'Twist']
            i = [m for m in its if st.heap[I.sole(m).oid].cls == 'Isometry']
            self.rep.count('maps decided')
            if len(a) != 1 or compare(drop(dump(I, st, a[0])), drop(dump(I, st, want))) not in (None, '?'): self.rep.finding('word', at, f'{what} twists about another curve'); return
            if len(i) != 1 or compare(drop(dump(I, st, i[0])), drop(dump(I, st, ms[0]))) not in (None, '?'): self.rep.finding('word', at, f'{what} ends with another isometry')
            return
        w = self.formal(st, [('w', 1)], T0, 'IntegralLamination')
        h = self.formal(st, [('h', 1)], T0, 'HomologyClass')
        for x, attr in ((h, 'algebraic'), (w, 'geometric')):
            a, b = I.invoke(st, e, '__call__', [x]), I.invoke(st, v, '__call__', [x])
            if a is None or b is None: self.rep.count('undecided'); return
            a, b = self.weights_of(st, a, attr), self.weights_of(st, b, attr)
            if a is None or b is None: self.rep.count('undecided'); self.rep.note(f'{what}: its image is not known'); return
            if attr == 'algebraic':
                from check_c12 import span_contains, Flips
                bnd = [Flips.chain(t, lambda l: max(l, ~l)) for t in end]
                for j in range(self.zeta):
                    s = (('F', (('h', 1),)), j)
                    d = {i: dict(p[1]).get(s, 0) - dict(q[1]).get(s, 0) for i, (p, q) in enumerate(zip(a, b))}
                    if not span_contains(bnd, {i: c for i, c in d.items() if c}): self.rep.finding('word', at, f'{what} acts in another way on homology'); return
                continue
            for p, q in zip(a, b):
                r = compare(('number', p), ('number', q)) if p == q or T.size(p) + T.size(q) < 800 else '?'
                if r == '?': self.rep.count('undecided'); return
                if r: self.rep.finding('word', at, f'{what} acts in another way on laminations'); self.rep.note(str(plan)); return
        self.rep.count('maps decided')
    def run_all(self, tier):
        from report import part
        part(self.rep, self.accounts, tier)
        part(self.rep, self.operations)
        for f in (self.creations, self.conjugates, self.twists, self.combined): part(self.rep, f, tier)

def work(repo, tier, name):
    from report import Report
    rep = Report('C05', tier)
    err = None
    from report import part
    part(rep, lambda: Words(repo, rep, name).run_all(tier))
    return rep.counts, rep.findings, rep.notes, err

def check(repo, rep):
    rep.rule('Inverses, products, powers, conjugates, parts and images are interpreted abstractly on maps whose moves are letters between given triangulations; a result that is another word in the free group, or has '
             'other ends, is a violation.')
    names = ['torus', 'sphere3', 'sphere4'] if rep.tier == 'quick' else list(SHAPES)
    for counts, findings, notes, err in parallel(lambda n: work(repo, rep.tier, n), names[::-1]):
        if err: raise AnalysisError(err)
        for c, n in counts.items(): rep.count(c, n)
        for f in findings: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for n in notes: rep.note(n)
    rep.need('maps compared', 200)
