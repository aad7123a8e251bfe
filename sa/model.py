"""Triangulations given by their triangles: every label, triangle and corner of a small gluing pattern is a constant of
the analysis, the weights of laminations and homology classes on it are symbols.  The operations of the library are
interpreted abstractly on such objects (constant propagation for labels, linear terms for weights)."""
from dom import *
import terms as T
from api import Api, LAMS, FLIPMOVES, OTHERMOVES
from interp import Dead

def canon(tris):
    """The triangles in the canonical order, each starting at its smallest label."""
    out = []
    for t in tris:
        i = min(range(3), key=lambda j: t[j])
        out.append(tuple(t[i:]) + tuple(t[:i]))
    return tuple(sorted(out))
def vertices(tris):
    corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
    left, out = set(corner), []
    while left:
        v = [min(left)]; left.discard(v[0])
        while True:
            n = ~corner[v[-1]][2]
            if n not in left: break
            v.append(n); left.discard(n)
        out.append(tuple(v))
    return out
def flip(tris, e):
    """The triangles after flipping e (the library's convention for labels and orientation)."""
    corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
    _, a, b = corner[e]; _, c, d = corner[~e]
    p, q = (e, ~e) if e >= 0 else (~e, e)
    keep = [t for t in tris if e not in t and ~e not in t]
    return canon(keep + [(p, d, a), (q, b, c)])
def square(tris, e):
    corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
    return corner[e][1:] + corner[~e][1:] + (e,)
def flippable(tris, e): return not any(e in t and ~e in t for t in tris)

TORUS = canon([(0, 1, 2), (~0, ~1, ~2)])
SPHERE3 = canon([(0, ~0, 2), (1, ~1, ~2)])                                # both triangles folded, 2 not
SPHERE4 = canon([(0, ~4, ~2), (1, ~5, ~0), (2, ~1, ~3), (3, 4, 5)])     # four vertices
FOLD4 = canon([(0, ~0, 1), (~1, 2, 3), (~2, ~3, 4), (~4, 5, ~5)])
S12 = canon([(0, ~2, 1), (~0, 4, ~5), (~1, ~3, ~4), (2, 5, 3)])
SHAPES = {'torus': TORUS, 'sphere3': SPHERE3, 'sphere4': SPHERE4, 'fold4': FOLD4, 's12': S12}

EXPANDED = ('create.isometry', 'create.edgeflip', 'create.multiedgeflip', 'create.twist', 'create.halftwist', 'create.link', 'create.crush', 'create.lineartransformation')
def E(l): return one(EdgeA(None, ('edge', T.const(l))))

class Model(Api):
    """The interpreter in which the given triangulations are known completely."""
    def __init__(self, repo, gated=False, **kw):
        super().__init__(repo, gated=gated, **kw)
        for n in ('new:Lamination+', 'new:HomologyClass', 'new:Move+', 'new:PartialLinearFunction', 'new:Triangle') + EXPANDED: self.contracts.pop(n, None)
        for q in [q for q in self.contracts if q.split('.')[-1] == '__init__']: self.contracts.pop(q)
        self.contracts['new:Triangulation'] = self.new_triangulation
        self.contracts['new:Encoding+'] = self.new_encoding
        self.hooks['inst_eq'] = self.inst_eq
        self.hooks['inst_truth'] = lambda I, x, st: True if st.heap[x.oid].cls in ('Triangulation', 'Triangle') else None
        self.seen_shapes = []
    # ---- building
    def heap(self, st, key, rec):
        oid = self.intern(('model',) + key, 'o')
        if oid not in st.heap: st.heap[oid] = rec
        return one(Ref(oid))
    def lst(self, st, key, vals, kind='list'): return self.heap(st, key, Rec(kind, tuple(vals), BOT, BOT, bool(vals), 'a field of a given triangulation'))
    def triangle(self, st, t):
        return self.heap(st, ('tri', t), Rec('inst', org='shared', cls='Triangle', fields={
            'edges': self.lst(st, ('te', t), [E(l) for l in t]), 'labels': self.lst(st, ('tl', t), [k(l) for l in t]), 'indices': self.lst(st, ('ti', t), [k(max(l, ~l)) for l in t])}))
    def triangulation(self, st, tris):
        tris = canon(tris)
        z = len(tris) * 3 // 2
        key = ('T', tris)
        corner = {t[i]: (t[i], t[(i + 1) % 3], t[(i + 2) % 3]) for t in tris for i in range(3)}
        own = {l: t for t in tris for l in t}
        vs = vertices(tris)
        vof = {l: v for v in vs for l in v}
        vt = lambda v: self.lst(st, ('v', tris, v), [E(l) for l in v], 'tuple')
        D = lambda n, f: self.heap(st, (n, tris), Rec('dict', tuple((k(l), f(l)) for l in sorted(corner)), BOT, BOT, True, 'a field of a given triangulation'))
        if tris not in self.seen_shapes: self.seen_shapes.append(tris)
        return self.heap(st, key, Rec('inst', org='shared', cls='Triangulation', fields={
            'triangles': self.lst(st, ('ts', tris), [self.triangle(st, t) for t in tris]), 'num_triangles': k(len(tris)), 'zeta': k(z),
            'indices': self.lst(st, ('ix', tris), [k(i) for i in range(z)]), 'labels': self.lst(st, ('lb', tris), [k(i) for i in range(-z, z)]),
            'edges': self.lst(st, ('ed', tris), [E(i) for i in range(-z, z)]), 'positive_edges': self.lst(st, ('pe', tris), [E(i) for i in range(z)]),
            'triangle_lookup': D('tlk', lambda l: self.triangle(st, own[l])), 'corner_lookup': D('clk', lambda l: self.triangle(st, corner[l])),
            'vertices': self.lst(st, ('vs', tris), [vt(v) for v in vs], 'set'), 'vertex_lookup': D('vlk', lambda l: vt(vof[l])),
            'num_vertices': k(len(vs)), 'euler_characteristic': k(-z // 3), 'signature': self.lst(st, ('sg', tris), [k(l) for t in tris for l in t])}))
    def vector(self, st, cls, attr, tris, vals, key):
        tv = self.triangulation(st, tris)
        z = len(tris) * 3 // 2
        made = []
        for what, rec in (('vecl', lambda: Rec('list', tuple(vals), BOT, BOT, True, 'an argument')), ('vec', lambda: Rec('inst', org='an argument', cls=cls, fields={'triangulation': tv, 'zeta': k(z), attr: made[0]}))):
            oid = self.intern(('model', what, cls, key), 'o')
            st.heap[oid] = rec()                          # anew each time, whatever happened to the last one
            made.append(one(Ref(oid)))
        return made[1]
    def lamination(self, st, tris, key='w', cls='IntegralLamination', kind='int', vals=None):
        return self.vector(st, cls, 'geometric', tris, vals or [num(kind, t=T.sym((key, i))) for i in range(len(tris) * 3 // 2)], key)
    def homology(self, st, tris, key='h'):
        return self.vector(st, 'HomologyClass', 'algebraic', tris, [num('int', t=T.sym((key, i))) for i in range(len(tris) * 3 // 2)], key)
    # ---- reading back
    def field_of(self, st, v, name):
        x = self.sole(v)
        if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst': return st.heap[x.oid].fields.get(name)
        return None
    def items(self, st, v):
        x = self.sole(v) if v else None
        if isinstance(x, Ref) and st.heap[x.oid].items is not None: return st.heap[x.oid].items
        return None
    def labels_of(self, st, v):
        """The labels of a collection of edges or integers, None when they are not all known."""
        its = self.items(st, v)
        if its is None: return None
        from exprs import edge_const
        out = [edge_const(self.sole(i)) if len(i) == 1 else None for i in its]
        return None if None in out else tuple(out)
    def shape_of(self, st, v):
        """The triangles of a triangulation value."""
        s = self.field_of(st, v, 'signature') if v else None
        ls = self.labels_of(st, s) if s is not None else None
        return None if ls is None or len(ls) % 3 else tuple(ls[i:i + 3] for i in range(0, len(ls), 3))
    def triangles_of(self, st, v):
        its = self.items(st, v)
        if its is None: return None
        out = []
        for i in its:
            e = self.field_of(st, i, 'edges')
            ls = self.labels_of(st, e) if e is not None else None
            if ls is None or len(ls) != 3: return None
            out.append(ls)
        return out
    # ---- intercepted constructors
    def new_triangulation(self, I, st, cls, args, kw, node):
        v = args[0] if args else kw.get('triangles')
        tris = self.triangles_of(st, v) if v else None
        if not tris: return frozenset([Obj('Triangulation', (self.fresh_frame(node, 'T'),), 'fresh', None)])
        flat = sorted(l for t in tris for l in t)
        z = len(tris) * 3 // 2
        if flat != list(range(-z, z)): self.raise_(st, 'KeyError', node)
        return self.triangulation(st, tris)
    def new_encoding(self, I, st, cls, args, kw, node):
        v = args[0] if args else kw.get('sequence', TOP)
        its = self.items(st, v) if not isinstance(v, tuple) else None
        if its is None: return frozenset([Obj(cls, ('?', '?'), 'fresh', None)])
        ref = self.alloc(st, node, Rec('inst', cls=cls, fields={'sequence': self.new(st, node, 'list', items=list(its), sub='seq'),
            'source_triangulation': self.field_of(st, its[-1], 'source_triangulation') or TOP, 'target_triangulation': self.field_of(st, its[0], 'target_triangulation') or TOP}), sub='enc')
        return ref
    # ---- equality of instances, as the library's classes define it
    KEYS = {'Triangle': ('edges',), 'Triangulation': ('signature',), 'HomologyClass': None}
    def inst_eq(self, I, x, y, st):
        a, b = st.heap[x.oid], st.heap[y.oid]
        if a.cls != b.cls: return None
        ks = self.KEYS.get(a.cls)
        if not ks: return False if x != y and self.by_identity(a.cls) else None
        rs = [self.eq_vals(a.fields.get(n, TOP), b.fields.get(n, TOP), st) for n in ks]
        return False if False in rs else None if None in rs else True
    def by_identity(self, cls):
        """Whether the objects of a class are equal only to themselves."""
        infos = [self.repo.classes.get(c) for c in self.repo.mro(cls) if c != 'object']
        return all(i is not None and len(i.bases) == len(i.base_exprs) and not i.node.decorator_list and not i.node.keywords and not {'__eq__', '__hash__'} & (set(i.methods) | set(i.attrs)) for i in infos)
    # ---- running methods of instances
    def invoke(self, st, v, name, args=(), kw=None, node=None):
        """The merged value of calling a method in st (st is advanced), or None when it never returns."""
        node = node or self.NODE
        self.epoch += 1                                   # what this call allocates is told apart from what other calls do
        self.sinks.append([])
        try: return self.call(self.getattr_(v, name, st, node), list(args), dict(kw or {}), st, node)
        except Dead: return None
        finally: self.last_sink = self.sinks.pop()
    import ast as _ast
    NODE = _ast.parse('entry()').body[0].value
