"""What the analyses assume about the library's own classes: the type of every stored field, and for every operation
that moves between triangulations a *specification* -- the class, triangulation and origin of its result.  A caller is
analysed against the specification (it is a contract); the body is analysed against it too (see frames.py), so that
every specification used is also an obligation."""
from dom import *
from interp import one_move, Dead
from lib import Lib, Wrap

LAMS = ('Lamination', 'IntegralLamination', 'MultiCurve', 'Curve', 'MultiArc', 'Arc')
INT5 = LAMS[1:]
CURVES, ARCS, COMP = ('MultiCurve', 'Curve'), ('MultiArc', 'Arc'), ('Curve', 'Arc')
ENC = ('Encoding', 'Mapping', 'MappingClass')
FLIPMOVES = ('Isometry', 'EdgeFlip', 'MultiEdgeFlip', 'Twist', 'HalfTwist')
OTHERMOVES = ('Crush', 'Lift', 'LinearTransformation')
DEBUG = False
MEM = 'a remembered result'

def objs(classes, *fr, org=MEM, sym=None):
    if isinstance(classes, str): classes = (classes,)
    return frozenset(Obj(c, tuple(fr), org, sym) for c in classes)
def edge(tag=None): return one(EdgeA(tag, None))
def wnum(F, kinds=('int',), lo=None): return frozenset(Num(kd, lo, None, F, None) for kd in kinds)
def kinds_of(cls): return ('int', 'frac', 'alg') if cls == 'Lamination' else ('int',)

# ------------------------------------------------------------------ fields
def _rec(I, st, node, kind, org, sub, items=None, elem=BOT, key=BOT, ne=True, aux=None):
    return I.alloc(st, node, Rec(kind, tuple(items) if items is not None else None, elem, key, ne, org, None, None, aux), sub)
def _org(o, attr): return 'fresh' if o.org == 'fresh' else f'attribute {attr} of {o.cls}'
def tri_obj(I, st, o, node): return objs('Triangle', org=_org(o, 'triangle'))
def vertex(I, st, node, F, o=None, sub='v'): return _rec(I, st, node, 'tuple', MEM, ('vertex', sub, F), elem=edge(F))
def ints(I, st, node, lo=None): return num('int', lo)

def F_(o, i=0): return o.fr[i]
def listf(attr, elem, kind='list'):
    def f(I, st, o, node): return _rec(I, st, node, kind, _org(o, attr), ('fld', attr, o), elem=elem(I, st, o, node))
    return f
def dictf(attr, key, elem):
    def f(I, st, o, node): return _rec(I, st, node, 'dict', _org(o, attr), ('fld', attr, o), key=key(I, st, o, node), elem=elem(I, st, o, node))
    return f
LABEL = frozenset([Num('int', None, None, 'idx', None)])
INDEX = frozenset([Num('int', 0, None, 'idx', None)])
def c(v): return lambda I, st, o, node: v
def fr(cls, i, org='shared'): return lambda I, st, o, node: objs(cls, o.fr[i], org=f'{org}')

def enc_sequence(I, st, o, node):
    return _rec(I, st, node, 'list', _org(o, 'sequence'), ('fld', 'seq', o), elem=one_move(I, o, ('?', '?')), aux=('chain', o, False, I.idwrap))
def move_inverse(I, st, o, node):
    inv = {'Crush': 'Lift', 'Lift': 'Crush'}.get(o.cls, o.cls)
    return objs(inv, o.fr[1], o.fr[0], org='shared')
def square(I, st, o, node): return _rec(I, st, node, 'list', _org(o, 'square'), ('fld', 'square', o), items=[edge()] * 5)
def matrixf(I, st, o, node):
    row = _rec(I, st, node, 'nd', _org(o, 'matrix'), ('fld', 'mrow', o), elem=INT, aux=('dtype', 'object'))
    return _rec(I, st, node, 'nd', _org(o, 'matrix'), ('fld', 'matrix', o), elem=row, aux=('dtype', 'object'))

FIELDS = {
    'Lamination': {
        'triangulation': fr('Triangulation', 0), 'zeta': c(num('int', 3)),
        'geometric': lambda I, st, o, node: _rec(I, st, node, 'list', _org(o, 'geometric'), ('fld', 'geo', o), elem=wnum(o.fr[0], kinds_of(o.cls)))},
    'HomologyClass': {
        'triangulation': fr('Triangulation', 0), 'zeta': c(num('int', 3)),
        'algebraic': lambda I, st, o, node: _rec(I, st, node, 'list', _org(o, 'algebraic'), ('fld', 'alg', o), elem=wnum(o.fr[0]))},
    'Triangulation': {
        'triangles': listf('triangles', tri_obj), 'num_triangles': c(num('int', 2)), 'zeta': c(num('int', 3)),
        'indices': listf('indices', c(INDEX)), 'labels': listf('labels', c(LABEL)), 'signature': listf('signature', c(LABEL)),
        'edges': listf('edges', lambda I, st, o, node: edge(o.fr[0] if I.tag_all else None)), 'positive_edges': listf('positive_edges', lambda I, st, o, node: edge(o.fr[0] if I.tag_all else None)),
        'triangle_lookup': dictf('triangle_lookup', c(LABEL), tri_obj), 'corner_lookup': dictf('corner_lookup', c(LABEL), tri_obj),
        'vertices': listf('vertices', lambda I, st, o, node: vertex(I, st, node, o.fr[0]), 'set'),
        'vertex_lookup': dictf('vertex_lookup', c(LABEL), lambda I, st, o, node: vertex(I, st, node, o.fr[0])),
        'num_vertices': c(num('int', 1)), 'euler_characteristic': c(num('int', None, -1))},
    'Triangle': {
        'edges': lambda I, st, o, node: _rec(I, st, node, 'list', _org(o, 'edges'), ('fld', 'te', o), items=[edge()] * 3),
        'labels': lambda I, st, o, node: _rec(I, st, node, 'list', _org(o, 'labels'), ('fld', 'tl', o), items=[LABEL] * 3),
        'indices': lambda I, st, o, node: _rec(I, st, node, 'list', _org(o, 'indices'), ('fld', 'ti', o), items=[INDEX] * 3)},
    'Encoding': {
        'sequence': enc_sequence, 'source_triangulation': fr('Triangulation', 0), 'target_triangulation': fr('Triangulation', 1), 'zeta': c(num('int', 3))},
    'Move': {
        'source_triangulation': fr('Triangulation', 0), 'target_triangulation': fr('Triangulation', 1), 'zeta': c(num('int', 3)), '_inverse': move_inverse},
    'Isometry': {n: dictf(n, c(LABEL if 'label' in n else INDEX), c(LABEL if 'label' in n else INDEX)) for n in ('label_map', 'index_map', 'inverse_label_map', 'inverse_index_map')},
    'EdgeFlip': {'edge': c(edge()), 'square': square},
    'MultiEdgeFlip': {'edges': listf('edges', c(edge()), 'set'), 'squares': dictf('squares', c(edge()), square)},
    'Twist': {'curve': fr('Curve', 0), 'power': c(INT), 'power_sign': c(frozenset([K('int', 1), K('int', -1)])),
        'encoding': lambda I, st, o, node: objs('MappingClass', *o.fr, org='shared'), 'signed_encoding': lambda I, st, o, node: objs('MappingClass', *o.fr, org='shared')},
    'HalfTwist': {'arc': fr('Arc', 0), 'power': c(INT),
        'encoding': lambda I, st, o, node: objs('MappingClass', *o.fr, org='shared'), 'encoding_power': lambda I, st, o, node: objs('MappingClass', *o.fr, org='shared')},
    'Crush': {'curve': fr('Curve', 0)},
    'LinearTransformation': {'matrix': matrixf},
    'Lift': {'vertices': listf('vertices', lambda I, st, o, node: vertex(I, st, node, o.fr[0]))},
    'CurveGraph': dict({'triangulation': fr('Triangulation', 0), 'zeta': c(num('int', 3))}, **{n: c(num('int', 1)) for n in ('QUASICONVEXITY', 'BOUNDED_GEODESIC_IMAGE', 'HYPERBOLICITY', 'D', 'XI', 'M', 'R', 'M2')}),
    'MappingClassGroup': {
        'triangulation': fr('Triangulation', 0), 'zeta': c(num('int', 3)),
        'pos_mapping_classes': dictf('pos_mapping_classes', c(STR), lambda I, st, o, node: objs('MappingClass', o.fr[0], o.fr[0], org='shared')),
        'neg_mapping_classes': dictf('neg_mapping_classes', c(STR), lambda I, st, o, node: objs('MappingClass', o.fr[0], o.fr[0], org='shared')),
        'mapping_classes': dictf('mapping_classes', c(STR), lambda I, st, o, node: objs('MappingClass', o.fr[0], o.fr[0], org='shared')),
        'curves': dictf('curves', c(STR), lambda I, st, o, node: objs('Curve', o.fr[0], org='shared')),
        'arcs': dictf('arcs', c(STR), lambda I, st, o, node: objs('Arc', o.fr[0], org='shared'))},
    'FiniteSubgroup': {
        'mapping_classes': dictf('mapping_classes', c(STR | INT), lambda I, st, o, node: objs('MappingClass', o.fr[0], o.fr[0], org='shared')),
        'generators': listf('generators', c(STR | INT)), 'triangulation': fr('Triangulation', 0)},
    'Permutation': {'perm': listf('perm', c(INDEX))},
    'PartialLinearFunction': {'action': matrixf, 'condition': matrixf},
}

# ------------------------------------------------------------------ specifications
SPECS = {}
def spec(*names):
    def d(f):
        for n in names: SPECS[n] = f
        return f
    return d

class P:
    """The arguments of one call: sole library object atoms by parameter name."""
    def __init__(self, env): self.env = env
    def __getitem__(self, n): return self.env.get(n, TOP)
    def get(self, n): return self.env.get(n)

def lib_atoms(v, *classes, repo=None):
    return [x for x in v if isinstance(x, Obj) and x.cls in classes]

def frame_of(v, i=0):
    """The one frame of a value, or '?'."""
    fs = set(x.fr[i] if isinstance(x, Obj) and len(x.fr) > i else '?' for x in v)
    return fs.pop() if len(fs) == 1 else '?'
def same_or(I, st, f, g, node, what=None):
    """The two triangulations are required to agree: refuted -> exception, unknown -> learnt."""
    if f == '?' or g == '?': return
    e = I.frames_equal(st, f, g)
    if e is False:
        if I.refuters is None or I.cur_op in I.refuters: I.raise_(st, 'ValueError', node)
        return
    if e is None:
        if I.stack and not rigid_pair(I, st, f, g): I.event('meet', f'an object of one triangulation is handed to an operation of an object on another one' + (f' {st.find(f)} {st.find(g)}' if DEBUG else ''), node)
        st.union(f, g)
def rigid_pair(I, st, f, g):
    f, g = st.find(f), st.find(g)
    return '#' not in f and not f.startswith('J') or False if '#' not in g and not g.startswith('J') else False
def classes_of(v): return tuple(sorted(set(x.cls for x in v if isinstance(x, Obj))))
def fresh(I, node, what, recv=None):
    s = None
    for x in recv or (): s = x.sym if isinstance(x, Obj) else None
    return I.fresh_frame(node, what, ('memo', what, s)) if s is not None else I.fresh_frame(node, what)

def new_dict(I, st, node, key, elem, sub, org=MEM): return _rec(I, st, node, 'dict', org, sub, key=key, elem=elem, ne=False)
def tup(I, st, node, *items, sub='t'): return _rec(I, st, node, 'tuple', MEM, ('tup', sub), items=items)

def s_shorten(I, st, p, node):
    r = p['self']; F = frame_of(r); G = fresh(I, node, 'S', r)
    cl = classes_of(r)
    out = INT5 if set(cl) & {'IntegralLamination', 'Lamination'} else cl
    return tup(I, st, node, objs(out, G), objs('Mapping', F, G), sub=('shorten', F, cl))
SPECS['IntegralLamination.shorten'] = s_shorten

@spec('Lamination.promote')
def s(I, st, p, node):
    r = p['self']
    return objs(LAMS if 'Lamination' in classes_of(r) else INT5 if 'IntegralLamination' in classes_of(r) else classes_of(r), frame_of(r))
@spec('Lamination.peripheral')
def s(I, st, p, node): return objs(('IntegralLamination', 'MultiCurve', 'Curve'), frame_of(p['self']))
@spec('Lamination.non_peripheral')
def s(I, st, p, node):
    t = I.truth(p['promote'], st)
    base = 'Lamination' in classes_of(p['self'])
    if t is False: return objs('Lamination', frame_of(p['self']))
    return objs(LAMS if base else INT5, frame_of(p['self']))
@spec('Lamination.peripheral_components')
def s(I, st, p, node):
    F = frame_of(p['self'])
    return new_dict(I, st, node, objs('Curve', F), tup(I, st, node, num('int', 1) if 'Lamination' not in classes_of(p['self']) else EXACT, vertex(I, st, node, F), sub=('pc', F)), ('pcd', F))
@spec('Lamination.parallel_components')
def s(I, st, p, node):
    r = p['self']; F = frame_of(r); cl = set(classes_of(r))
    comp = ('Curve',) if cl <= set(CURVES) else ('Arc',) if cl <= set(ARCS) else COMP
    return new_dict(I, st, node, objs(comp, F), tup(I, st, node, num('int', 1) if 'Lamination' not in cl else EXACT, edge(F), sub=('ac', F)), ('acd', F))
@spec('IntegralLamination.components', 'Curve.components', 'Arc.components')
def s(I, st, p, node):
    r = p['self']; F = frame_of(r); cl = set(classes_of(r))
    comp = ('Curve',) if cl <= set(CURVES) else ('Arc',) if cl <= set(ARCS) else COMP
    return new_dict(I, st, node, objs(comp, F), num('int', 1), ('cd', F, tuple(sorted(cl))))
@spec('Lamination.trace_curve')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return objs('Curve', frame_of(p['self']))
@spec('IntegralLamination.intersection')
def s(I, st, p, node):
    F = frame_of(p['self'])
    for v in I.vararg_values(p['laminations'], st, node): same_or(I, st, frame_of(v), F, node)
    return NAT
@spec('IntegralLamination.no_common_component', 'IntegralLamination.fills_with', 'MultiCurve.fills_with')
def s(I, st, p, node):
    o = p.get('lamination') or p['other']
    same_or(I, st, frame_of(o), frame_of(p['self']), node)
    return BOOL
@spec('IntegralLamination.multiarc')
def s(I, st, p, node):
    cl = set(classes_of(p['self']))
    return objs(('IntegralLamination', 'MultiArc', 'Arc') if not cl <= set(CURVES) else 'IntegralLamination', frame_of(p['self']))
@spec('IntegralLamination.multicurve')
def s(I, st, p, node):
    cl = set(classes_of(p['self']))
    return objs(('IntegralLamination', 'MultiCurve', 'Curve') if not cl <= set(ARCS) else 'IntegralLamination', frame_of(p['self']))
@spec('IntegralLamination.boundary', 'MultiCurve.boundary', 'MultiArc.boundary')
def s(I, st, p, node): return objs(('IntegralLamination', 'MultiCurve', 'Curve'), frame_of(p['self']))
@spec('IntegralLamination.skeleton')
def s(I, st, p, node): return objs(INT5, frame_of(p['self']))
@spec('IntegralLamination.peek_component')
def s(I, st, p, node):
    cl = set(classes_of(p['self']))
    return objs(('Curve',) if cl <= set(CURVES) else ('Arc',) if cl <= set(ARCS) else COMP, frame_of(p['self']))
@spec('IntegralLamination.sublaminations')
def s(I, st, p, node): return _rec(I, st, node, 'list', 'fresh', 'subl', elem=objs(INT5, frame_of(p['self']), org='fresh'), ne=False)
@spec('IntegralLamination.topological_type')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return objs('TopologicalType', org='shared')
@spec('Lamination.is_integral', 'Lamination.is_empty', 'Lamination.is_peripheral', 'Lamination.is_non_peripheral', 'IntegralLamination.is_filling', 'MultiCurve.is_filling',
      'IntegralLamination.is_polygonalisation', 'IntegralLamination.is_short', 'MultiArc.is_short', 'Curve.is_short', 'MultiCurve.is_separating', 'MultiArc.is_triangulation',
      'MultiArc.has_distinct_endpoints', 'Isometry.is_identity', 'Triangulation.is_connected', 'Triangulation.is_flippable', 'MappingClass.is_identity', 'MappingClass.is_periodic',
      'MappingClass.is_reducible', 'MappingClass.is_pseudo_anosov', 'MappingClass.is_in_torelli', 'MappingClass.is_multitwist', 'HomologyClass.is_canonical')
def s(I, st, p, node):
    I.label_use(p.get('edge'), st, node)
    return BOOL
@spec('IntegralLamination.num_components')
def s(I, st, p, node): return NAT
@spec('Lamination.dual_weight', 'Lamination.left_weight', 'Lamination.right_weight')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node)
    kinds = ('int',) if 'Lamination' not in classes_of(p['self']) else ('int', 'frac', 'alg')
    return frozenset(Num(kd, None, None, 'w', None) for kd in kinds)
@spec('Lamination.weight')
def s(I, st, p, node): return frozenset(Num(kd, 0, None, 'w', None) for kd in (('int',) if 'Lamination' not in classes_of(p['self']) else ('int', 'frac', 'alg')))
@spec('Lamination.__call__')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node)
    kinds = ('int',) if 'Lamination' not in classes_of(p['self']) else ('int', 'frac', 'alg')
    return frozenset(Num(kd, None, None, 'w', None) for kd in kinds)
@spec('HomologyClass.__call__')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node)
    return INT
@spec('HomologyClass.canonical')
def s(I, st, p, node): return objs('HomologyClass', frame_of(p['self']), org='fresh')

@spec('Curve.parallel', 'Arc.parallel')
def s(I, st, p, node): return edge(frame_of(p['self']))
@spec('Curve.slope')
def s(I, st, p, node):
    same_or(I, st, frame_of(p['lamination']), frame_of(p['self']), node)
    I.may_raise(st, 'ValueError', node)
    return num('frac')
@spec('Curve.relative_twisting')
def s(I, st, p, node):
    for n in ('b', 'c'): same_or(I, st, frame_of(p[n]), frame_of(p['self']), node)
    I.may_raise(st, 'ValueError', node)
    return num('frac')
@spec('MultiCurve.encode_twist', 'MultiArc.encode_halftwist')
def s(I, st, p, node):
    F = frame_of(p['self'])
    return objs('MappingClass', F, F)
@spec('MultiCurve.crush', 'Curve.crush')
def s(I, st, p, node): return objs(('Encoding', 'Mapping', 'MappingClass'), frame_of(p['self']), fresh(I, node, 'C', p['self']))
@spec('MultiCurve.boundary_union')
def s(I, st, p, node):
    same_or(I, st, frame_of(p['other']), frame_of(p['self']), node)
    return objs(INT5, frame_of(p['self']))
@spec('MultiCurve.vertex_cycles')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'vcs', elem=objs('Curve', frame_of(p['self']), org='fresh'), ne=False)
@spec('MultiCurve.vertex_cycle')
def s(I, st, p, node): return objs('Curve', frame_of(p['self']), org='fresh')
@spec('MultiArc.explore_ball')
def s(I, st, p, node): return _rec(I, st, node, 'set', 'fresh', 'xb', elem=objs(('MultiArc',), frame_of(p['self'])), ne=False)
@spec('MultiArc.all_disjoint_arcs')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'ada', elem=objs(INT5, frame_of(p['self'])), ne=False)
@spec('MultiArc.all_disjoint_multiarcs', 'MultiArc.all_disjoint_triangulations')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'adm', elem=objs(INT5, frame_of(p['self'])), ne=False)
@spec('MultiArc.vertices')
def s(I, st, p, node): return _rec(I, st, node, 'set', 'fresh', 'vs', elem=vertex(I, st, node, frame_of(p['self'])), ne=False)

# --- triangulations
@spec('Triangulation.lamination')
def s(I, st, p, node):
    F = frame_of(p['self'])
    I.weights_use(p['weights'], F, st, node)
    t = I.truth(p['promote'], st)
    if t is False: return objs('Lamination', F, org='fresh')
    wk = I.weight_kinds(p['weights'], st, node)
    return objs(INT5 if wk == {'int'} else LAMS, F, org='fresh')
@spec('Triangulation.lamination_from_cut_sequence')
def s(I, st, p, node):
    I.tags_use(p['sequence'], frame_of(p['self']), st, node)
    return objs(INT5, frame_of(p['self']), org='fresh')
@spec('Triangulation.curve_from_cut_sequence')
def s(I, st, p, node):
    I.tags_use(p['sequence'], frame_of(p['self']), st, node)
    return objs('Curve', frame_of(p['self']), org='fresh')
@spec('Triangulation.empty_lamination')
def s(I, st, p, node): return objs('IntegralLamination', frame_of(p['self']), org='fresh')
@spec('Triangulation.as_lamination')
def s(I, st, p, node): return objs('MultiArc', frame_of(p['self']), org='fresh')
@spec('Triangulation.edge_curve')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node)
    return objs('Curve', frame_of(p['self']), org='fresh')
@spec('Triangulation.edge_arc')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node, lenient=True)
    return objs('Arc', frame_of(p['self']), org='fresh')
@spec('Triangulation.edge_homology')
def s(I, st, p, node):
    I.tag_use(p['edge'], frame_of(p['self']), st, node, lenient=True)
    return objs('HomologyClass', frame_of(p['self']), org='fresh')
def flist(name, cls, kind='list', n=1):
    @spec(name)
    def s(I, st, p, node): return _rec(I, st, node, kind, 'fresh', ('fl', name), elem=objs(cls, *([frame_of(p['self'])] * n), org='fresh'), ne=True)
flist('Triangulation.edge_curves', 'Curve'); flist('Triangulation.edge_arcs', 'Arc')
flist('Triangulation.edge_homologies', 'HomologyClass'); flist('Triangulation.homology_basis', 'HomologyClass')
def s_sum(disjoint):
    def f(I, st, p, node):
        F = frame_of(p['self'])
        v = p['laminations']
        cl, known = set(), bool(v) and TOPA not in v
        for x in v:
            it = I.iterate(one(x), st, node)
            for e in (it[1] if it[0] == 'items' else [it[1]] if it[0] == 'elem' else [TOP]):
                for y in e:
                    if isinstance(y, Obj) and y.cls in LAMS: same_or(I, st, y.fr[0], F, node); cl.add(y.cls)
                    else: known = False
        if not known or 'Lamination' in cl: return objs(LAMS, F, org='fresh')
        if not disjoint: return objs(INT5, F, org='fresh')
        if not cl: return objs('IntegralLamination', F, org='fresh')
        if cl <= set(ARCS): return objs(('IntegralLamination', 'MultiArc', 'Arc'), F, org='fresh')
        if cl <= set(CURVES): return objs(('IntegralLamination', 'MultiCurve', 'Curve'), F, org='fresh')
        return objs(INT5, F, org='fresh')
    return f
SPECS['Triangulation.sum'], SPECS['Triangulation.disjoint_sum'] = s_sum(False), s_sum(True)
@spec('Triangulation.id_encoding')
def s(I, st, p, node):
    F = frame_of(p['self'])
    return objs('MappingClass', F, F, org='fresh')
@spec('Triangulation.id_isometry')
def s(I, st, p, node):
    F = frame_of(p['self'])
    return objs('Isometry', F, F, org='fresh')
@spec('Triangulation.encode_flip', 'Triangulation.encode_multiflip')
def s(I, st, p, node):
    I.tag_use(p.get('edge') or BOT, frame_of(p['self']), st, node, lenient=True)
    return objs('Mapping', frame_of(p['self']), fresh(I, node, 'X'), org='fresh')
@spec('Triangulation.encode_relabel_edges')
def s(I, st, p, node): return objs(('Mapping', 'MappingClass'), frame_of(p['self']), fresh(I, node, 'R'), org='fresh')
@spec('Triangulation.encode_pachner_1_3')
def s(I, st, p, node): return objs('Encoding', frame_of(p['self']), fresh(I, node, 'P'), org='fresh')
@spec('Triangulation.encode')
def s(I, st, p, node): return objs(ENC, frame_of(p['self']), fresh(I, node, 'E'), org='fresh')
@spec('Triangulation.find_isometry')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return objs('Isometry', frame_of(p['self']), frame_of(p['other']), org='fresh')
@spec('Triangulation.isometries_to')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'iso', elem=objs('Isometry', frame_of(p['self']), frame_of(p['other']), org='fresh'), ne=False)
@spec('Triangulation.self_isometries')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'siso', elem=objs('Isometry', frame_of(p['self']), frame_of(p['self']), org='fresh'), ne=False)
@spec('Triangulation.is_isometric_to')
def s(I, st, p, node): return BOOL
@spec('Triangulation.all_encodings')
def s(I, st, p, node): return _rec(I, st, node, 'iter', 'fresh', 'allenc', elem=objs('Mapping', frame_of(p['self']), fresh(I, node, 'A'), org='fresh'), ne=True)
@spec('Triangulation.square')
def s(I, st, p, node):
    I.label_use(p.get('edge'), st, node)
    return _rec(I, st, node, 'list', 'fresh', 'sq', items=[edge()] * 5)
@spec('Triangulation.components')
def s(I, st, p, node): return _rec(I, st, node, 'list', MEM, 'tc', elem=_rec(I, st, node, 'tuple', MEM, 'tc1', elem=edge(frame_of(p['self']))))
@spec('Triangulation.surface')
def s(I, st, p, node):
    from dom import Rec as R
    S = I.alloc(st, node, R('tuple', (NAT, num('int', 1), num('int', None, -1)), BOT, BOT, True, MEM, None, None, ('nt', ('g', 'p', 'chi'))), 'S')
    return _rec(I, st, node, 'dict', MEM, 'surf', key=_rec(I, st, node, 'tuple', MEM, 'surf1', elem=edge(frame_of(p['self']))), elem=S)
@spec('Triangulation.dual_tree')
def s(I, st, p, node): return _rec(I, st, node, 'set', 'fresh', 'dt', elem=INDEX, ne=False)
@spec('Triangulation.homology_matrix')
def s(I, st, p, node):
    row = _rec(I, st, node, 'nd', MEM, 'hmr', elem=INT, aux=('dtype', 'object'))
    return _rec(I, st, node, 'nd', MEM, 'hm', elem=row, aux=('dtype', 'object'))
SPECS['Mapping.homology_matrix'] = SPECS['Mapping.intersection_matrix'] = s
@spec('Triangulation.max_order')
def s(I, st, p, node): return num('int', 1)
@spec('Triangulation.cut_sequence_intersections')
def s(I, st, p, node):
    I.tags_use(p['sequence'], frame_of(p['self']), st, node)
    return _rec(I, st, node, 'list', 'fresh', 'csi', elem=num('int', 0, tag=frame_of(p['self'])))
@spec('Triangulation.sig')
def s(I, st, p, node): return STR

# --- maps
def image_classes(enc, arg):
    ec, ac = set(classes_of(enc)), classes_of(arg)
    if 'Encoding' in ec: return LAMS if 'Lamination' in ac else INT5
    return ac
@spec('Encoding.__call__', 'MappingClass.__call__')
def s(I, st, p, node):
    e, o = p['self'], p['other']
    if not o or TOPA in o or not all(isinstance(x, Obj) for x in o): return TOP
    same_or(I, st, frame_of(e, 0), frame_of(o), node)
    G = frame_of(e, 1)
    if set(classes_of(o)) == {'HomologyClass'}: return objs('HomologyClass', G, org='fresh')
    if set(classes_of(o)) <= set(LAMS): return objs(image_classes(e, o), G, org='fresh')
    return TOP
@spec('Move.__call__', 'Move.apply_lamination+', 'Move.apply_homology+')
def s(I, st, p, node):
    m = p['self']
    o = p.get('other') or p.get('lamination') or p.get('homology_class') or TOP
    if not o or not all(isinstance(x, Obj) for x in o): return TOP
    same_or(I, st, frame_of(m, 0), frame_of(o), node)
    G = frame_of(m, 1)
    if set(classes_of(o)) == {'HomologyClass'}: return objs('HomologyClass', G, org='fresh')
    if set(classes_of(o)) <= set(LAMS):
        cl = classes_of(o)
        if set(classes_of(m)) & set(OTHERMOVES): cl = LAMS if 'Lamination' in cl else INT5
        return objs(cl, G, org='fresh')
    return TOP
@spec('Encoding.__mul__')
def s(I, st, p, node):
    e, o = p['self'], p['other']
    if o == NONE: return e
    if not o or not all(isinstance(x, Obj) and x.cls in ENC for x in o): return None
    same_or(I, st, frame_of(e, 0), frame_of(o, 1), node)
    F, G = frame_of(o, 0), frame_of(e, 1)
    ec, oc = set(classes_of(e)), set(classes_of(o))
    out = set()
    if 'Encoding' in ec | oc: out.add('Encoding')
    if (ec - {'Encoding'}) and (oc - {'Encoding'}):
        eq = I.frames_equal(st, F, G)
        if eq is True: out.add('MappingClass')
        elif eq is False: out.add('Mapping')
        else: out |= {'Mapping', 'MappingClass'}
    return objs(tuple(sorted(out)), F, G, org='fresh')
@spec('Encoding.inverse', 'Encoding.__invert__')
def s(I, st, p, node):
    e = p['self']
    return objs(classes_of(e), frame_of(e, 1), frame_of(e, 0), org='fresh')
@spec('Encoding.promote')
def s(I, st, p, node): return objs(ENC if 'Encoding' in classes_of(p['self']) else classes_of(p['self']), frame_of(p['self'], 0), frame_of(p['self'], 1), org='fresh')
@spec('Mapping.simplify', 'Mapping.flip_mapping', 'Mapping.combine_isometries')
def s(I, st, p, node):
    e = p['self']
    return objs(('Mapping', 'MappingClass') if 'Mapping' in classes_of(e) else ('MappingClass',), frame_of(e, 0), frame_of(e, 1), org='fresh')
@spec('Mapping.self_image')
def s(I, st, p, node): return objs('MultiArc', frame_of(p['self'], 1))
@spec('Mapping.vertex_map')
def s(I, st, p, node):
    e = p['self']
    return _rec(I, st, node, 'dict', 'fresh', 'vm', key=vertex(I, st, node, frame_of(e, 0), sub=1), elem=vertex(I, st, node, frame_of(e, 1), sub=2))
@spec('Mapping.pl_action', 'Isometry.pl_action', 'EdgeFlip.pl_action', 'MultiEdgeFlip.pl_action', 'Twist.pl_action', 'HalfTwist.pl_action')
def s(I, st, p, node):
    same_or(I, st, frame_of(p['self'], 0), frame_of(p['multicurve']), node)
    return objs('PartialLinearFunction', org='fresh')
@spec('MappingClass.order')
def s(I, st, p, node): return NAT
@spec('MappingClass.subgroup')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return objs('FiniteSubgroup', frame_of(p['self']))
@spec('MappingClass.conjugate_by')
def s(I, st, p, node):
    m, o = p['self'], p['other']
    if not all(isinstance(x, Obj) and x.cls in ENC for x in o): return None
    same_or(I, st, frame_of(m, 0), frame_of(o, 1), node)
    F = frame_of(o, 0)
    return objs(('Encoding',) if 'Encoding' in classes_of(o) else ('MappingClass',), F, F, org='fresh')
@spec('MappingClass.__pow__')
def s(I, st, p, node): return objs('MappingClass', frame_of(p['self'], 0), frame_of(p['self'], 1), org='fresh')
@spec('MappingClass.vertex_permutation')
def s(I, st, p, node): return objs('Permutation', org='fresh')
@spec('MappingClass.nielsen_thurston_type')
def s(I, st, p, node): return STR
@spec('MappingClass.asymptotic_translation_length')
def s(I, st, p, node): return num('frac', 0)
@spec('MappingClass.positive_asymptotic_translation_length', 'MappingClass.is_conjugate_to', 'FiniteSubgroup.is_conjugate_to')
def s(I, st, p, node): return BOOL
@spec('MappingClass.extract_twisting_multicurve')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return objs(('MultiCurve', 'Curve'), frame_of(p['self']))
@spec('MappingClass.projective_invariant_lamination')
def s(I, st, p, node):
    I.may_raise(st, 'ValueError', node)
    return tup(I, st, node, num('alg'), objs(LAMS, frame_of(p['self'])), sub='pil')
@spec('Move.encode')
def s(I, st, p, node):
    m = p['self']; cl = set(classes_of(m))
    F, G = frame_of(m, 0), frame_of(m, 1)
    out = set()
    if cl & set(OTHERMOVES): out.add('Encoding')
    if cl & set(FLIPMOVES):
        eq = I.frames_equal(st, F, G)
        out |= {'MappingClass'} if eq is True else {'Mapping'} if eq is False else {'Mapping', 'MappingClass'}
    return objs(tuple(sorted(out)), F, G, org='fresh')
@spec('Move.inverse', 'Twist.inverse', 'HalfTwist.inverse', 'Move.__invert__')
def s(I, st, p, node):
    out = BOT
    for x in p['self']: out = out | move_inverse(I, st, x, node)
    return out
@spec('FlipGraphMove.flip_mapping+')
def s(I, st, p, node):
    m = p['self']
    return objs('MappingClass' if set(classes_of(m)) <= {'Twist', 'HalfTwist'} else ('Mapping', 'MappingClass'), frame_of(m, 0), frame_of(m, 1), org='fresh')
def s_create(*cls):
    def s(I, st, p, node):
        F, G = frame_of(p['source_triangulation']), frame_of(p['target_triangulation'])
        return objs(cls, F, G, org='fresh')
    return s
for n, cl in (('isometry', 'Isometry'), ('edgeflip', 'EdgeFlip'), ('multiedgeflip', 'MultiEdgeFlip'), ('crush', 'Crush'), ('lineartransformation', 'LinearTransformation')):
    SPECS['create.' + n] = s_create(cl)
def s_create_twist(cl):
    def s(I, st, p, node):
        F = frame_of(p['curve'])
        return objs(cl, F, F, org='fresh')
    return s
SPECS['create.twist'], SPECS['create.halftwist'] = s_create_twist('Twist'), s_create_twist('HalfTwist')

# --- curve graph, subgroups
def cg(I, st, p, node, *names):
    for n in names: same_or(I, st, frame_of(p[n]), frame_of(p['self']), node)
@spec('CurveGraph.quasiconvex')
def s(I, st, p, node): cg(I, st, p, node, 'a', 'b'); return _rec(I, st, node, 'set', 'fresh', 'qc', elem=objs('Curve', frame_of(p['self'])))
@spec('CurveGraph.tight_paths')
def s(I, st, p, node):
    cg(I, st, p, node, 'a', 'b')
    return _rec(I, st, node, 'set', 'fresh', 'tp', elem=_rec(I, st, node, 'tuple', 'fresh', 'tp1', elem=objs(INT5, frame_of(p['self']))), ne=False)
@spec('CurveGraph.all_tight_geodesic_multicurves')
def s(I, st, p, node): cg(I, st, p, node, 'a', 'b'); return _rec(I, st, node, 'set', 'fresh', 'tg', elem=objs(INT5, frame_of(p['self'])))
@spec('CurveGraph.tight_geodesic')
def s(I, st, p, node): cg(I, st, p, node, 'a', 'b'); return _rec(I, st, node, 'tuple', 'fresh', 'tgd', elem=objs(INT5, frame_of(p['self'])))
@spec('CurveGraph.geodesic')
def s(I, st, p, node): cg(I, st, p, node, 'a', 'b'); return _rec(I, st, node, 'tuple', 'fresh', 'gd', elem=objs(COMP, frame_of(p['self'])))
@spec('CurveGraph.distance')
def s(I, st, p, node): cg(I, st, p, node, 'a', 'b'); return NAT
@spec('FiniteSubgroup.invariant_polygonalisation')
def s(I, st, p, node): return objs(INT5, frame_of(p['self']))
@spec('FiniteSubgroup.quotient_orbifold_signature')
def s(I, st, p, node):
    R = Rec
    cp = I.alloc(st, node, R('tuple', (BOOL, num('int', 1), TOP, num('int', 1)), BOT, BOT, True, MEM, None, None, ('nt', ('punctured', 'order', 'holonomy', 'preimages'))), 'cp')
    cps = _rec(I, st, node, 'list', MEM, 'cps', elem=cp, ne=False)
    orb = I.alloc(st, node, R('tuple', (num('frac'), num('int', 1), cps), BOT, BOT, True, MEM, None, None, ('nt', ('euler_characteristic', 'preimages', 'cone_points'))), 'orb')
    return _rec(I, st, node, 'list', MEM, 'qos', elem=orb)
@spec('FiniteSubgroup.from_generators')
def s(I, st, p, node): return objs('FiniteSubgroup', frame_of(I.elem_of_values(p['generators'], st, node)), org='fresh')
@spec('MappingClassGroup.mapping_class', 'MappingClassGroup.__call__')
def s(I, st, p, node):
    F = frame_of(p['self'])
    I.may_raise(st, 'ValueError', node)
    return objs('MappingClass', F, F, org='fresh')
@spec('MappingClassGroup.lamination')
def s(I, st, p, node): return objs(LAMS, frame_of(p['self']), org='fresh')
@spec('PartialLinearFunction.eigenvector')
def s(I, st, p, node): 
    I.may_raise(st, 'ValueError', node)
    return tup(I, st, node, num('alg'), _rec(I, st, node, 'nd', 'fresh', 'ev', elem=num('alg'), aux=('dtype', 'object')), sub='eig')
@spec('PartialLinearFunction.__mul__')
def s(I, st, p, node): return objs('PartialLinearFunction', org='fresh')
@spec('Permutation.from_dict', 'Permutation.from_index', 'Permutation.inverse', 'Permutation.__mul__', 'Permutation.__pow__')
def s(I, st, p, node): return objs('Permutation', org='fresh')
@spec('Permutation.is_conjugate_to', 'Permutation.is_even')
def s(I, st, p, node): return BOOL
@spec('Permutation.order', 'Permutation.index')
def s(I, st, p, node): return NAT

# --- printing and hashing never matter to the result
@spec('Triangulation.__str__', 'Triangulation.__repr__', 'Lamination.__str__', 'Lamination.__repr__')
def s(I, st, p, node): return STR

# ------------------------------------------------------------------ constructors
def ctor_lam(I, st, cls, args, kw, node):
    tv = args[0] if args else kw.get('triangulation', TOP)
    g = args[1] if len(args) > 1 else kw.get('geometric', TOP)
    if isinstance(g, tuple) or isinstance(tv, tuple): return objs(cls, '?', org='fresh')
    F = frame_of(tv)
    I.weights_use(g, F, st, node)
    h = I.hooks.get('ctor')
    if h: h(I, st, cls, tv, g, node)
    return objs(cls, F, org='fresh')
def ctor_hom(I, st, cls, args, kw, node):
    tv = args[0] if args else kw.get('triangulation', TOP)
    g = args[1] if len(args) > 1 else kw.get('algebraic', TOP)
    if isinstance(g, tuple) or isinstance(tv, tuple): return objs(cls, '?', org='fresh')
    I.weights_use(g, frame_of(tv), st, node)
    return objs(cls, frame_of(tv), org='fresh')
def ctor_tri(I, st, cls, args, kw, node): return objs('Triangulation', fresh(I, node, 'T'), org='fresh')
def ctor_move(I, st, cls, args, kw, node):
    get = lambda i, n: args[i] if len(args) > i else kw.get(n, TOP)
    if cls in ('Twist', 'HalfTwist'):
        F = frame_of(get(0, 'curve' if cls == 'Twist' else 'arc')); return objs(cls, F, F, org='fresh')
    return objs(cls, frame_of(get(0, 'source_triangulation')), frame_of(get(1, 'target_triangulation')), org='fresh')
def seq_frames(I, st, v, node):
    """(source, target) frames of a list of moves, target end first."""
    F = G = None
    for x in v:
        if not isinstance(x, Ref): return '?', '?'
        r = st.heap[x.oid]
        if r.items is not None and r.kind != 'dict':
            ms = r.items
            if not ms: continue
            for a, b in zip(ms, ms[1:]):
                fa, fb = frame_of(a, 0), frame_of(b, 1)
                if fa != '?' and fb != '?' and not st.same(fa, fb): I.event('mix', 'moves are put in one map although the target of one is not the source of the next', node)
            f, g = frame_of(ms[-1], 0), frame_of(ms[0], 1)
        else:
            s = I.seq_of(r)
            if r.aux is not None and (r.aux[0] == 'rseq' or r.aux[0] == 'chain' and r.aux[2]):
                a = r.aux[1:3] if r.aux[0] == 'rseq' else r.aux[1].fr
                if len(set(map(st.find, a))) > 1: I.event('mix', 'the moves of a map are listed from source to target, a map needs them from target to source', node)
                return a[0], a[1]
            if s is None: return '?', '?'
            f, g = s
        F, G = (f, g) if F is None or (F, G) == (f, g) else ('?', '?')
    return (F or '?'), (G or '?')
def ctor_enc(I, st, cls, args, kw, node):
    v = args[0] if args else kw.get('sequence', TOP)
    if isinstance(v, tuple): return objs(cls, '?', '?', org='fresh')
    F, G = seq_frames(I, st, v, node)
    if cls == 'MappingClass' and '?' not in (F, G):
        if I.frames_equal(st, F, G) is not True and not I.stack_in('Encoding.__mul__', 'Encoding.promote'): G = F if I.frames_equal(st, F, G) is None else G
    return objs(cls, F, G, org='fresh')
def ctor_cg(I, st, cls, args, kw, node): return objs(cls, frame_of(args[0] if args else kw.get('triangulation', TOP)), org='fresh')
def ctor_sub(I, st, cls, args, kw, node):
    v = args[0] if args else kw.get('mapping_classes', TOP)
    return objs(cls, frame_of(I.elem_of_values(v, st, node)), org='fresh')
def ctor_mcg(I, st, cls, args, kw, node):
    v = args[0] if args else kw.get('pos_mapping_classes', TOP)
    return objs(cls, frame_of(I.elem_of_values(v, st, node)), org='fresh')
def ctor_plain(I, st, cls, args, kw, node): return objs(cls, org='fresh')
def ctor_edge(I, st, cls, args, kw, node):
    a = args[0] if args else kw.get('label', TOP)
    x = I.sole(a) if a and not isinstance(a, tuple) else None
    if isinstance(x, EdgeA) and x.t is not None: return one(EdgeA(None, x.t))
    t = I.term(a) if a and not isinstance(a, tuple) else None
    return one(EdgeA(None, ('edge', t) if t is not None else None))

CTORS = {'new:Lamination+': ctor_lam, 'new:HomologyClass': ctor_hom, 'new:Triangulation': ctor_tri, 'new:Move+': ctor_move, 'new:Encoding+': ctor_enc,
    'new:CurveGraph': ctor_cg, 'new:FiniteSubgroup': ctor_sub, 'new:MappingClassGroup': ctor_mcg, 'new:PartialLinearFunction': ctor_plain, 'new:Permutation': ctor_plain,
    'new:Triangle': lambda I, st, cls, args, kw, node: objs('Triangle', org='fresh'), 'new:Edge': ctor_edge, 'new:UnionFind': None, 'new:StraightLineProgram': ctor_plain}
CTORS = {a: b for a, b in CTORS.items() if b}

class Api(Lib):
    tag_all = False
    refuters = cur_op = None   # when set: the operations known to refuse operands on another triangulation
    def __init__(self, repo, **kw):
        kw.setdefault('fields', FIELDS)
        super().__init__(repo, **kw)
        if not self.contracts:
            self.contracts = dict(CTORS)
            for q, s in SPECS.items():
                if q.endswith('+'):
                    base, m = q[:-1].split('.')
                    for c in repo.subs.get(base, []):
                        if m in repo.classes[c].methods: self.contracts[f'{c}.{m}'] = self.as_contract(s)
                else: self.contracts[q] = self.as_contract(s)
        self.hooks.setdefault('iter_obj', iter_obj)
    def as_contract(self, s):
        def c(I, st, f, args, kw, node):
            env = I.bind(f, args, kw, st, node)
            if 'self' in env and not all(isinstance(x, Obj) for x in env['self']): return None
            op = I.cur_op
            I.cur_op = f.node.name
            try: return s(I, st, P(env), node)
            finally: I.cur_op = op
        c.spec = s
        return c
    def stack_in(self, *names): return any(self.repo.qual.get(a.node) in names for a in self.stack)
    def in_move(self): return any(a.cls and self.repo.is_sub(a.cls, 'Move') for a in self.stack)
    def vararg_values(self, v, st, node):
        out = []
        for x in v:
            it = self.iterate(one(x), st, node)
            out += it[1] if it[0] == 'items' else [it[1]] if it[0] == 'elem' else []
        return out
    def elem_of_values(self, v, st, node):
        out = BOT
        for x in v:
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'dict': out = self.join(out, self.summary(st.heap[x.oid])[1])
            elif isinstance(x, Ref): out = self.join(out, self.elem_of(one(x), st, node))
            else: return TOP
        return out or TOP
    # -- uses of edges and weights on a particular triangulation
    def tag_use(self, v, F, st, node, lenient=False):
        if lenient or F == '?' or not v: return
        for x in v:
            if isinstance(x, EdgeA) and x.tag is not None and x.tag != '?' and not st.same(x.tag, F):
                self.event('mix', 'an edge of one triangulation is used to read an object of another', node)
    def tags_use(self, v, F, st, node):
        for e in self.vararg_values(v or BOT, st, node): self.tag_use(e, F, st, node)
    def label_use(self, v, st, node): pass
    def weight_values(self, v, st, node):
        for x in v or ():
            if isinstance(x, Ref) and st.heap[x.oid].kind == 'dict': yield self.summary(st.heap[x.oid])[1]
            elif isinstance(x, (Ref, Obj)):
                it = self.iterate(one(x), st, node)
                if it[0] == 'items': yield from it[1]
                elif it[0] == 'elem': yield it[1]
            else: yield TOP
    def weights_use(self, v, F, st, node):
        if F == '?' or self.in_move(): return
        for w in self.weight_values(v, st, node):
            for x in w:
                if isinstance(x, Num) and x.tag not in (None, '?', 'idx', 'w') and not st.same(x.tag, F):
                    self.event('mix', 'an object is built on one triangulation from weights on another', node)
    def weight_kinds(self, v, st, node):
        out = set()
        for w in self.weight_values(v, st, node):
            for x in w: out.add(self.kind_of(x) if isinstance(x, (Num, K)) else 'int' if isinstance(x, Bool) else '?')
        return out - {'bool'} or {'?'}

def iter_obj(I, x, st, node):
    if x.cls in LAMS: return ('elem', wnum(x.fr[0], kinds_of(x.cls)), True)
    if x.cls == 'HomologyClass': return ('elem', wnum(x.fr[0]), True)
    if x.cls == 'Triangulation': return ('elem', objs('Triangle', org='shared'), True)
    if x.cls == 'Triangle': return ('items', [edge()] * 3)
    return None
