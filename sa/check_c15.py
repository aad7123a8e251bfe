"""C15: operations that take an edge treat the edge and its integer label alike.

Every such operation is interpreted abstractly on triangulations given by their gluing pattern, once with the label and
once with the edge (and with mixed collections); the two abstract outcomes must agree."""
from dom import *
import terms as T
from repo import AnalysisError
from model import *
from exprs import edge_const
from report import parallel

def dump(I, st, v, depth=0):
    """The structure of a value, with '?' where it is not known."""
    if v is None: return ('never returns',)
    if len(v) != 1: return '?'
    x = I.sole(v)
    if isinstance(x, K): return ('constant', x.v)
    c = edge_const(x)
    if isinstance(x, EdgeA): return '?' if c is None else ('edge', c)
    if isinstance(x, Num): return '?' if x.t is None else ('number', x.t)
    if isinstance(x, Ref):
        if depth > 7: return '?'
        r = st.heap[x.oid]
        go = lambda w: dump(I, st, w, depth + 1)
        if r.kind == 'inst':
            if r.cls == 'Triangulation':
                s = I.shape_of(st, v)
                return '?' if s is None else ('triangulation', canon(s))
            return ('instance', r.cls, tuple((n, go(w)) for n, w in sorted(r.fields.items()) if n not in ('_inverse', '_cache')))
        if r.items is None: return '?'
        if r.kind == 'dict': return ('dict', tuple(sorted(((go(a), go(b)) for a, b in r.items), key=order)))
        if r.kind == 'set': return ('set', tuple(sorted((go(a) for a in r.items), key=order)))
        return (r.kind, tuple(go(a) for a in r.items))
    return '?'
def order(d):
    """Edges and their labels sort alike."""
    return repr(d).replace("'edge'", "'constant'")

def compare(a, b):
    """None when the two structures are the same, '?' when that is not known, and otherwise what differs."""
    if a == '?' or b == '?': return '?'
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            if a[0] == 'never returns' and b[0] != a[0] or b[0] == 'never returns' and a[0] != b[0]: return 'refused'
            if a[0] == b[0] == 'number':
                if a == b: return None
                try:
                    x, y = (T.unfloor(a[1]), T.unfloor(b[1])) if 'fdiv' in repr(a[1]) + repr(b[1]) else (a[1], b[1])
                    if T.size(x) + T.size(y) >= 20000: return '?'
                    return 'another number' if T.Cells(T.base_symbols(x) | T.base_symbols(y)).differ([(x, y)]) else '?' if x is not a[1] else None
                except T.Cannot: return '?'
            if a[0] in ('constant', 'edge', 'number', 'triangulation'):
                if a == b: return None
                if {a[0], b[0]} == {'constant', 'edge'}: return 'an edge is kept as a label' if a[1] == b[1] else 'another edge'
                if {a[0], b[0]} == {'constant', 'number'}: return 'another number'
                return 'another ' + a[0] if a[0] == b[0] else 'a value of another kind'
            if a[0] != b[0]: return 'a value of another kind' if {a[0], b[0]} - {'list', 'tuple', 'nd'} else None
            if a[0] == 'instance' and a[1] != b[1]: return 'a value of another class'
        if len(a) != len(b): return 'a value of another size'
        rs = [compare(x, y) for x, y in zip(a, b)]
        bad = [r for r in rs if r not in (None, '?')]
        return bad[0] if bad else '?' if '?' in rs else None
    return None if a == b else 'a value of another kind'

def symmetric(tris):
    """A few label maps extending to isometries of the pattern to itself."""
    out = []
    corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
    first = tris[0][0]
    for to in sorted(corner):
        m, work, ok = {}, [(first, to)], True
        while work and ok:
            a, b = work.pop()
            if a in m:
                ok = m[a] == b
                continue
            m[a] = b
            work += [(~a, ~b), (corner[a][1], corner[b][1])]
        if ok and len(set(m.values())) == len(corner): out.append(m)
    return first, out

class Both:
    def __init__(self, repo, rep, name):
        self.repo, self.rep, self.name, self.tris = repo, rep, name, SHAPES[name]
        self.zeta = len(self.tris) * 3 // 2
        self.I = Model(repo, gated=True, budget=20000000)
        self.st0 = State()
        for c in repo.classes:
            for n, f in (('encode_twist', self.twist), ('encode_halftwist', self.twist), ('crush', self.crush)):
                if n in repo.classes[c].methods and repo.is_sub(c, 'Lamination'): self.I.contracts[f'{c}.{n}'] = f
        self.I.contracts['Triangulation.lamination'] = self.weights
        self.n = 0
    # what a twist is built from is all that matters here
    def twist(self, I, st, f, args, kw, node):
        recv = args[0]
        p = args[1] if len(args) > 1 else kw.get('power', k(1))
        t = I.field_of(st, recv, 'triangulation')
        if t is None: return None
        move = I.alloc(st, node, Rec('inst', cls='Twist', fields={'curve': recv, 'power': p, 'source_triangulation': t, 'target_triangulation': t}), 'tm')
        return I.alloc(st, node, Rec('inst', cls='Mapping', fields={'sequence': I.new(st, node, 'list', items=[move], sub='sq'), 'source_triangulation': t, 'target_triangulation': t}), 'tw')
    def crush(self, I, st, f, args, kw, node): return self.twist(I, st, f, args[:1] + [k(0)], {}, node)
    def weights(self, I, st, f, args, kw, node):
        w = args[1] if len(args) > 1 else kw.get('weights', TOP)
        t = args[0]
        if I.items(st, w) is None: return None
        return I.alloc(st, node, Rec('inst', cls='IntegralLamination', fields={'triangulation': t, 'geometric': w}), 'lam')
    def where(self, cls, name):
        if cls is None:
            try: return self.repo.where(self.repo.function('curver.kernel.create', name))
            except AnalysisError: return name
        own = self.repo.find_method(cls, name)
        return self.repo.where(own[1]) if own else f'{cls}.{name}'
    def outcome(self, f):
        """The abstract outcome of f(state) from the common start."""
        st = self.st0.copy()
        self.I.epoch += 1
        v = f(st)
        return dump(self.I, st, v)
    def run(self, where, what, forms, f):
        """f(state, form) is called with each form; the first is the one with labels."""
        try: outs = [self.outcome(lambda st, g=g: f(st, g)) for _, g in forms]
        except RecursionError: return self.rep.note(f'{what}: not decided')
        self.rep.count('operations compared')
        for (n, _), o in zip(forms[1:], outs[1:]):
            self.rep.count('forms compared')
            r = compare(outs[0], o)
            if r == '?':
                self.rep.count('undecided forms'); self.rep.note(f'{what} {n}: the outcomes are not known completely')
            elif r == 'refused': self.rep.finding('edge', where, f'{what}: given {n if o[0] == "never returns" else "labels"} it never returns, which it does given {"labels" if o[0] == "never returns" else n}')
            elif r: self.rep.finding('edge', where, f'{what}: given {n} the answer is {r if r.startswith("a") else "another"} than given labels')
            elif outs[0][0] == 'never returns': self.rep.count('refused alike')
    # ---- forms
    def lst(self, st, vals, kind='list'):
        self.n += 1
        return self.I.heap(st, ('c15', self.n), Rec(kind, tuple(vals), BOT, BOT, bool(vals), 'an argument'))
    def lstless(self, st):
        self.n += 1
        return self.I.heap(st, ('c15', self.n), Rec('inst', org='an argument', cls='Edge', fields={}))
    def dct(self, st, items):
        self.n += 1
        return self.I.heap(st, ('c15', self.n), Rec('dict', tuple(items), BOT, BOT, bool(items), 'an argument'))
    def single(self, l): return [('labels', k(l)), ('edges', E(l))]
    def several(self, ls, kind):
        """A collection of labels, of edges, and mixed ones."""
        mk = lambda f: lambda st: self.lst(st, [f(i)(l) for i, l in enumerate(ls)], kind)
        out = [('labels', mk(lambda i: k)), ('edges', mk(lambda i: E))]
        if len(ls) > 1: out.append(('both', mk(lambda i: E if i % 2 else k)))
        return out
    def mapping(self, m):
        mk = lambda f, g: lambda st: self.dct(st, [(f(i)(a), g(i)(b)) for i, (a, b) in enumerate(m.items())])
        c = lambda f: lambda i: f
        mixed = lambda i: E if i % 2 else k
        return [('labels', mk(c(k), c(k))), ('edges', mk(c(E), c(E))), ('edges to labels', mk(c(E), c(k))), ('labels to edges', mk(c(k), c(E))), ('both', mk(mixed, mixed))]
    # ---- the operations
    def all(self, tier):
        I = self.I
        tri = lambda st: I.triangulation(st, self.tris)
        has = lambda c, n: self.repo.find_method(c, n) is not None
        labels = list(range(-self.zeta, self.zeta))
        for l in labels:
            def made(st, g):
                e = self.lstless(st)
                return e if I.invoke(st, e, '__init__', [g]) is not None else None
            self.run(self.where('Edge', '__init__'), 'making an edge', self.single(l), made)
        some = labels if self.zeta <= 3 or tier == 'thorough' else [l for l in labels if l % 2 == 0 or l in (-1, 3)]
        for l in some:
            side = 'an edge' if l >= 0 else 'a reversed edge'
            for c in ('Lamination', 'IntegralLamination'):
                for n in ('__call__', 'dual_weight', 'left_weight', 'right_weight'):
                    if has(c, n): self.run(self.where(c, n), f'{n} of {side}', self.single(l), lambda st, g: I.invoke(st, I.lamination(st, self.tris, cls=c), n, [g]))
            for n in ('trace_curve',):
                vals = [k(2)] * self.zeta
                self.run(self.where('Lamination', n), f'{n} from {side}', self.single(l), lambda st, g: I.invoke(st, I.lamination(st, self.tris, key='two', vals=vals), n, [g, k(0), k(8)]))
            self.run(self.where('HomologyClass', '__call__'), f'the value of a homology class on {side}', self.single(l), lambda st, g: I.invoke(st, I.homology(st, self.tris), '__call__', [g]))
            for n in ('is_flippable', 'square', 'edge_curve', 'edge_arc', 'edge_homology', 'encode_flip'):
                self.run(self.where('Triangulation', n), f'{n} of {side}', self.single(l), lambda st, g: I.invoke(st, tri(st), n, [g]))
            self.run(self.where('Triangle', '__contains__'), f'whether {side} is in a triangle', self.single(l), lambda st, g: I.invoke(st, I.triangle(st, self.tris[0]), '__contains__', [g]))
            for kind in ('list', 'set', 'tuple'):
                self.run(self.where('Triangulation', 'encode_multiflip'), f'encode_multiflip of a {kind} of {side}', self.several([l], kind), lambda st, g: I.invoke(st, tri(st), 'encode_multiflip', [g(st)]))
            self.run(self.where('Triangulation', 'encode'), f'encoding the flip of {side}', self.several([l], 'list'), lambda st, g: I.invoke(st, tri(st), 'encode', [g(st)]))
            self.run(self.where('Triangulation', 'encode'), f'encoding the simultaneous flip of {side}', self.several([l], 'set'), lambda st, g: I.invoke(st, tri(st), 'encode', [self.lst(st, [g(st)])]))
            for p in (2, -1):
                self.run(self.where('Triangulation', 'encode'), f'encoding a twist about {side}', self.single(l), lambda st, g: I.invoke(st, tri(st), 'encode', [self.lst(st, [self.lst(st, [g, k(p)], 'tuple')])]))
            tgt = flip(self.tris, l) if flippable(self.tris, l) else self.tris
            self.run(self.where('EdgeFlip', '__init__'), f'the move flipping {side}', self.single(l), lambda st, g: self.construct(st, 'EdgeFlip', [tri(st), I.triangulation(st, tgt), g]))
            for kind in ('list', 'set'):
                self.run(self.where('MultiEdgeFlip', '__init__'), f'the move flipping a {kind} of {side}', self.several([l], kind), lambda st, g: self.construct(st, 'MultiEdgeFlip', [tri(st), I.triangulation(st, tgt), g(st)]))
            self.run(self.where('Triangulation', 'dual_tree'), 'the dual tree avoiding an index', self.several([max(l, ~l)], 'set'), lambda st, g: I.invoke(st, tri(st), 'dual_tree', [g(st)]))
        # pairs
        sup = lambda l: set(t for t in self.tris if l in t or ~l in t)
        pairs = [(a, b) for a in labels for b in labels if max(a, ~a) < max(b, ~b) and flippable(self.tris, a) and flippable(self.tris, b) and not sup(a) & sup(b)]
        for a, b in pairs if tier == 'thorough' else pairs[:3]:
            for kind in ('list', 'set'):
                self.run(self.where('Triangulation', 'encode_multiflip'), f'encode_multiflip of a {kind} of two edges', self.several([a, b], kind), lambda st, g: I.invoke(st, tri(st), 'encode_multiflip', [g(st)]))
            self.run(self.where('Triangulation', 'encode'), 'encoding the simultaneous flip of two edges', self.several([a, b], 'set'), lambda st, g: I.invoke(st, tri(st), 'encode', [self.lst(st, [g(st)])]))
            self.run(self.where('Triangulation', 'encode'), 'encoding two flips', self.several([a, b], 'list'), lambda st, g: I.invoke(st, tri(st), 'encode', [g(st)]))
        # cut sequences
        for seq in ([0, 1, ~0], [~1, ~2, 1, 0]):
            for n in ('cut_sequence_intersections', 'curve_from_cut_sequence', 'lamination_from_cut_sequence'):
                self.run(self.where('Triangulation', n), f'{n}', self.several(seq, 'list'), lambda st, g: I.invoke(st, tri(st), n, [g(st)]))
        # maps of labels
        first, isos = symmetric(self.tris)
        for m in isos[:4] if tier != 'thorough' else isos:
            one_ = {first: m[first]}
            half = {i: m[i] for i in range(self.zeta)}
            other = {(i if i % 2 else ~i): m[i if i % 2 else ~i] for i in range(self.zeta)}
            self.run(self.where('Triangulation', 'find_isometry'), 'find_isometry', self.mapping(one_), lambda st, g: I.invoke(st, tri(st), 'find_isometry', [tri(st), g(st)]))
            self.run(self.where('Isometry', '__init__'), 'the isometry given by a map of labels', self.mapping(m), lambda st, g: self.construct(st, 'Isometry', [tri(st), tri(st), g(st)]))
            self.run(self.where('Triangulation', 'encode'), 'encoding an isometry given by one label', self.mapping(one_), lambda st, g: I.invoke(st, tri(st), 'encode', [self.lst(st, [g(st)])]))
            for part in (half, other):
                self.run(self.where('Triangulation', 'encode_relabel_edges'), 'relabelling edges', self.mapping(part), lambda st, g: I.invoke(st, tri(st), 'encode_relabel_edges', [g(st)]))
                self.run(self.where('Triangulation', 'encode'), 'encoding a relabelling of edges', self.mapping(part), lambda st, g: I.invoke(st, tri(st), 'encode', [self.lst(st, [g(st)])]))
            self.run(self.where('Triangulation', 'encode_relabel_edges'), 'relabelling edges by a list', self.several([m[i] for i in range(self.zeta)], 'list'), lambda st, g: I.invoke(st, tri(st), 'encode_relabel_edges', [g(st)]))
        # creating moves and their inverses
        for l in some:
            if flippable(self.tris, l):
                tgt = flip(self.tris, l)
                self.run(self.where(None, 'multiedgeflip'), 'creating a simultaneous flip and its inverse', self.several([l], 'list')[:1] * 2, lambda st, g: self.function(st, 'multiedgeflip', [tri(st), I.triangulation(st, tgt), g(st)]))
    def construct(self, st, cls, args):
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        from interp import Dead
        try: return I.call(one(Cls(cls)), list(args), {}, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    def function(self, st, name, args):
        from interp import Dead
        I = self.I
        I.epoch += 1
        I.sinks.append([])
        try: return I.call(one(Fn(self.repo.function('curver.kernel.create', name), None, None, None)), list(args), {}, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()

def work(repo, tier, name):
    from report import Report
    rep = Report('C15', tier)
    err = None
    from report import part
    part(rep, lambda: Both(repo, rep, name).all(tier))
    return rep.counts, rep.findings, rep.notes, err

def check(repo, rep):
    rep.rule('Each operation taking edges, alone or in lists, tuples, sets and maps, is interpreted abstractly on given gluing patterns with integer labels, with edges and with both, for '
             'labels of both orientations; a form that never returns where another does, and results whose known structure differs, are violations.')
    names = ['torus', 'sphere3', 'sphere4'] if rep.tier == 'quick' else list(SHAPES)
    for counts, findings, notes, err in parallel(lambda n: work(repo, rep.tier, n), names[::-1]):
        if err: raise AnalysisError(err)
        for c, n in counts.items(): rep.count(c, n)
        for f in findings: rep.finding(f['rule'], f['where'], f['detail'], f['line'])
        for n in notes: rep.note(n)
    rep.need('forms compared', 200)
