"""C13: requests outside an operation's domain are refused, never answered."""
import ast
from dom import *
import entries as E
import api
from api import LAMS, INT5, CURVES, ARCS, ENC, FLIPMOVES, objs, Api, NAT, FIELDS, LABEL, edge, vertex

C = E.const
NEGINT = num('int', None, -1)
on = lambda cls, *fr: lambda c, n: objs(cls, *[f if f != '.' else c.F for f in fr], org=E.ARG)
def seq(kind, *parts): return lambda c, n: c.rec(kind, n, items=[p(c, (n, j)) for j, p in enumerate(parts)])
def mapping(*pairs): return lambda c, n: c.rec('dict', n, items=[(p(c, (n, 'k', j)), v(c, (n, 'v', j))) for j, (p, v) in enumerate(pairs)])
def deep(v):
    """A constant list, tuple, set or dictionary."""
    def b(c, n):
        if isinstance(v, dict): return c.rec('dict', n, items=[(deep(a)(c, (n, 'k', j)), deep(x)(c, (n, 'v', j))) for j, (a, x) in enumerate(v.items())])
        if isinstance(v, (list, tuple, set)): return c.rec(type(v).__name__, n, items=[deep(x)(c, (n, j)) for j, x in enumerate(v)])
        return k(v)
    return b
lam, curve, hom = on(LAMS, '.'), on('Curve', '.'), on('HomologyClass', '.')

def force(value, *quals):
    """The named questions get this answer wherever they are asked."""
    return {q: (lambda I, st, f, args, kw, node: value) for q in quals}
PERIPHERAL = force(TRUE, 'Lamination.is_peripheral') | force(FALSE, 'Lamination.is_non_peripheral')
PROPER = force(FALSE, 'Lamination.is_peripheral') | force(TRUE, 'Lamination.is_non_peripheral')
LONG = force(FALSE, 'IntegralLamination.is_short', 'MultiArc.is_short', 'Curve.is_short')
SHORT = force(TRUE, 'IntegralLamination.is_short', 'MultiArc.is_short', 'Curve.is_short')
DISJOINT = force(k(0), 'IntegralLamination.intersection')
PERIODIC = force(num('int', 1), 'MappingClass.order') | force(TRUE, 'MappingClass.is_periodic') | force(FALSE, 'MappingClass.is_pseudo_anosov')
PERIODIC |= force(FALSE, 'MappingClass.is_identity', 'Encoding.is_identity')
APERIODIC = force(k(0), 'MappingClass.order') | force(FALSE, 'MappingClass.is_periodic') | force(FALSE, 'MappingClass.is_identity')
SAMEENDS = force(FALSE, 'MultiArc.has_distinct_endpoints')
DISCONNECTED = force(FALSE, 'Triangulation.is_connected')
NOFLIP = force(FALSE, 'Triangulation.is_flippable')

def zero_slope(I):
    """Every weight the slope is computed from is zero, as it is for a lamination disjoint from the curve."""
    Z = k(0)
    for q in ('Lamination.left_weight', 'Lamination.right_weight', 'Lamination.dual_weight', 'Lamination.__call__'): I.contracts[q] = lambda I, st, f, args, kw, node: Z

class R:
    def __init__(self, what, op, over=None, contracts=None, fields=None, hooks=None, only=None, prep=None, want=None):
        self.what, self.op, self.over, self.contracts, self.fields, self.hooks, self.only, self.prep, self.want = what, op, over or {}, contracts or {}, fields, hooks or {}, only, prep, want

REQ = []
def r(*a, **kw): REQ.append(R(*a, **kw))

# ---- multiplicities and powers
for op in ('__mul__', '__rmul__'):
    r('a negative multiple', 'Lamination.' + op, {'other': C(NEGINT)})
    r('the multiple -1', 'Lamination.' + op, {'other': C(k(-1))})
    r('a negative repetition', 'StraightLineProgram.' + op, {'other': C(NEGINT)})
    r('the repetition -1', 'StraightLineProgram.' + op, {'other': C(k(-1))})
    r('a fractional multiple', 'Lamination.' + op, {'other': C(num('frac', 0))}, only=INT5)
for op in ('sum', 'disjoint_sum'):
    for nm, ms in (('only', (NEGINT,)), ('first of two', (NEGINT, num('int', 1))), ('last of two', (num('int', 1), NEGINT)), ('one of three', (num('int', 0), NEGINT, num('int', 0))), ('-1 after 1', (k(1), k(-1)))):
        r(f'a negative multiplicity ({nm})', 'Triangulation.' + op, {'laminations': mapping(*[(on(cl, '.'), C(m)) for cl, m in zip((('Curve',), ('MultiCurve',), ('Arc',)), ms)])})
    for nm, ps in (('only', (C(INT),)), ('last', (lam, C(INT))), ('first', (C(INT), lam)), ('homology class', (hom, lam)), ('nothing', (C(NONE), lam))):
        r(f'something that is not a lamination ({nm})', 'Triangulation.' + op, {'laminations': seq('list', *ps)})
r('paths of negative length', 'CurveGraph.tight_paths', {'length': C(NEGINT)})
r('paths of negative length', 'CurveGraph.tight_paths', {'length': C(k(-1))})
r('a drop below zero', 'IntegralLamination.shorten', {'drop': C(num('float', None, -1))}, only=('IntegralLamination',))
r('a drop above one', 'IntegralLamination.shorten', {'drop': C(num('float', 2, None))}, only=('IntegralLamination',))

# ---- slopes, twisting, twists
r('the slope about a peripheral curve', 'Curve.slope', contracts=PERIPHERAL)
r('the slope of a disjoint lamination', 'Curve.slope', contracts=DISJOINT | PROPER, prep=zero_slope)
r('relative twisting about a peripheral curve', 'Curve.relative_twisting', contracts=PERIPHERAL | force(num('int', 1), 'IntegralLamination.intersection'))
def disjoint_from(name):
    """The curve meets every lamination but the named one."""
    frames = {'b': '1', 'c': '2'}
    def isect(I, st, f, args, kw, node):
        vs = args[1:] if len(args) > 1 and not isinstance(args[1], tuple) else []
        s = [x.sym for v in args for x in v if isinstance(x, Obj)]
        return k(0) if name in s and 'self' in s else num('int', 1)
    return isect
for nm in ('b', 'c'):
    r(f'relative twisting about a curve disjoint from {nm}', 'Curve.relative_twisting', {p: (lambda c, n, p=p: objs(INT5, c.F, org=E.ARG, sym=p)) for p in 'bc'}, contracts=PROPER | {'IntegralLamination.intersection': disjoint_from(nm)}, want='sym')
r('an edge parallel to a peripheral curve', 'Curve.parallel', contracts=PERIPHERAL)
r('an edge parallel to a curve that is not short', 'Curve.parallel', contracts=PROPER | LONG)
r('an edge parallel to an arc that is not short', 'Arc.parallel', contracts=LONG)
inside = lambda *qs: (lambda I: [I.contracts.pop(q, None) for q in qs])
r('a twist about a peripheral curve', 'Twist.__init__', contracts=PERIPHERAL | SHORT, prep=inside('Curve.parallel'))
r('a twist about a curve that is not short', 'Twist.__init__', contracts=PROPER | LONG, prep=inside('Curve.parallel'))
r('a twist to the power zero', 'Twist.__init__', {'power': C(k(0))}, contracts=PROPER | SHORT)
r('a twist about something that is not a curve', 'Twist.__init__', {'curve': on(('MultiCurve', 'IntegralLamination', 'Arc'), '.')}, contracts=PROPER | SHORT)
r('a half-twist about an arc from a vertex to itself', 'MultiArc.encode_halftwist', contracts=SAMEENDS)
for p in (0, 1, -1, 2): r(f'a half-twist to the power {p} about an arc from a vertex to itself', 'MultiArc.encode_halftwist', {'power': C(k(p))}, contracts=SAMEENDS)
r('a half-twist about an arc that is not short', 'HalfTwist.__init__', contracts=force(TRUE, 'MultiArc.has_distinct_endpoints') | LONG)
r('a half-twist to the power zero', 'HalfTwist.__init__', {'power': C(k(0))}, contracts=SHORT | force(TRUE, 'MultiArc.has_distinct_endpoints'))
r('crushing along something that is not a curve', 'Crush.__init__', {'curve': on(('MultiCurve', 'IntegralLamination', 'Arc'), '.')}, contracts=PROPER | SHORT)
r('crushing along a peripheral curve', 'Crush.__init__', contracts=PERIPHERAL | SHORT)
r('crushing along a curve that is not short', 'Crush.__init__', contracts=PROPER | LONG)

# ---- Nielsen-Thurston
r('the subgroup of a class of infinite order', 'MappingClass.subgroup', contracts=APERIODIC)
r('the invariant lamination of a periodic class', 'MappingClass.projective_invariant_lamination', contracts=PERIODIC)
r('conjugacy with something that is not a mapping class', 'MappingClass.is_conjugate_to', {'other': on(('Encoding', 'Mapping'), 'H', 'H')})
r('a subgroup without its elements', 'FiniteSubgroup.__init__', {'mapping_classes': deep({})})
r('the curve graph of a disconnected surface', 'CurveGraph.__init__', contracts=DISCONNECTED)

# ---- laminations
def has_arcs(cl): return {'IntegralLamination.components': lambda I, st, f, args, kw, node: mkdict(I, st, node, args[0], cl)}
def mkdict(I, st, node, recv, cl):
    F = api.frame_of(recv)
    return I.alloc(st, node, Rec('dict', tuple((objs(x, F, sym=('component', j)), num('int', 1)) for j, x in enumerate(cl)), BOT, BOT, True, api.MEM), ('cd', cl))
SOMETHING = {'obj_truth': lambda I, x: x.sym != 'empty' if x.cls in LAMS else None}
def mixed_parts(I):
    """The lamination has an arc: the sublamination of its arcs is not empty."""
    I.contracts['IntegralLamination.multiarc'] = lambda I, st, f, args, kw, node: objs(('IntegralLamination', 'MultiArc', 'Arc'), api.frame_of(args[0]))
    surfaces(I, (0, 1, -2))
r('the forgetful type of a lamination with arcs', 'IntegralLamination.topological_type', {'closed': C(TRUE)}, hooks=SOMETHING, prep=mixed_parts, only=('IntegralLamination', 'MultiArc', 'Arc'))
def punctured(I):
    surfaces(I, (0, 2, -1))
    I.contracts['IntegralLamination.multiarc'] = lambda I, st, f, args, kw, node: objs('IntegralLamination', api.frame_of(args[0]), sym='empty')
def mixed(I):
    punctured(I); surfaces(I, (2, 1, -3), (0, 3, -1))
def surfaces(I, *cs):
    """The components of the surface with their genus, number of punctures and bound on the Euler characteristic."""
    def surface(I, st, f, args, kw, node):
        pairs = []
        for j, (g, p, chi) in enumerate(cs):
            s = I.alloc(st, node, Rec('tuple', (num('int', g), k(p), num('int', None, chi)), BOT, BOT, True, api.MEM, None, None, ('nt', ('g', 'p', 'chi'))), ('S', j))
            pairs.append((I.alloc(st, node, Rec('tuple', None, edge(), BOT, True, api.MEM), ('comp', j)), s))
        return I.alloc(st, node, Rec('dict', tuple(pairs), BOT, BOT, True, api.MEM), 'surf')
    I.contracts['Triangulation.surface'] = surface
r('the forgetful type on a surface with several punctures', 'IntegralLamination.topological_type', {'closed': C(TRUE)}, hooks=SOMETHING, prep=punctured)
r('the forgetful type when one of two components has several punctures', 'IntegralLamination.topological_type', {'closed': C(TRUE)}, hooks=SOMETHING, prep=mixed)
r('tracing from beyond the edge', 'Lamination.trace_curve', {'intersection': C(NEGINT)})
r('extending arcs that do not fill', 'MultiArc.explore_ball', contracts=force(FALSE, 'IntegralLamination.is_filling', 'MultiCurve.is_filling'))
for op in ('all_disjoint_arcs', 'all_disjoint_multiarcs', 'all_disjoint_triangulations'): r('arcs disjoint from arcs that do not fill', 'MultiArc.' + op, contracts=force(FALSE, 'IntegralLamination.is_filling', 'MultiCurve.is_filling'), prep=lambda I: [I.contracts.pop(q, None) for q in ('MultiArc.all_disjoint_arcs', 'MultiArc.all_disjoint_multiarcs')])
r('the boundary of the union with something else', 'MultiCurve.boundary_union', {'other': on('HomologyClass', '.')})
r('filling with something else', 'MultiCurve.fills_with', {'other': on('HomologyClass', '.')})
for cl in ('Lamination', 'HomologyClass'): r('a lamination on something that is not a triangulation', cl + '.__init__', {'triangulation': C(INT)})
def ofzeta(z, **more): return dict(FIELDS, Triangulation=dict(FIELDS['Triangulation'], zeta=lambda *a: k(z), indices=lambda I, st, o, node: I.alloc(st, node, Rec('list', tuple(k(j) for j in range(z)), BOT, BOT, True, 'attribute indices of Triangulation'), 'ix'), **more))
for nm, ws in (('too few', (1, 1)), ('too many', (1, 1, 1, 1)), ('no', ())):
    r(f'a lamination with {nm} weights', 'Triangulation.lamination', {'weights': deep(list(ws))}, fields=ofzeta(3))

# ---- flips, relabellings, edges
r('flipping an edge that cannot be flipped', 'Triangulation.square', contracts=NOFLIP)
for e in (0, -1):
    def folded(I, st, o, node): return I.alloc(st, node, Rec('dict', tuple((k(l), objs('Triangle', org='shared', sym=('triangle', l in (0, -1) or l))) for l in range(-3, 3)), BOT, BOT, True, 'attribute'), 'tl')
    F = dict(FIELDS, Triangulation=dict(FIELDS['Triangulation'], triangle_lookup=folded, zeta=lambda *a: k(3)))
    r(f'flipping the edge {e} inside a folded triangle', 'Triangulation.encode_flip', {'edge': C(k(e))}, fields=F, want='sym', prep=lambda I: [I.contracts.pop('Triangulation.' + q, None) for q in ('encode_flip', 'encode_multiflip', 'is_flippable')])
    r(f'flipping the edge {e} inside a folded triangle', 'Triangulation.encode_multiflip', {'edges': deep([e])}, fields=F, want='sym')
ID3 = {0: 0, 1: 1, 2: 2}
LABELS = [('no labels', {}), ('a missing label', {0: 0, 1: 1}), ('a missing label in the middle', {0: 0, ~2: 2}), ('inconsistent labels', {0: 0, ~0: 1, 1: ~0, ~1: ~1, 2: 2}), ('labels sending an edge and its inverse to one label', {0: 0, ~0: 0, 1: 1, 2: 2}), ('two edges with one label', {0: 0, 1: 0, 2: 2}), ('two edges with opposite labels', {0: 0, 1: ~0, 2: 2}), ('a label out of range', {0: 0, 1: 1, 2: 5})]
def tri3(I, st, o, node):
    mk = lambda i, ls: I.alloc(st, node, Rec('inst', cls='Triangle', fields={'edges': I.alloc(st, node, Rec('list', tuple(one(EdgeA(None, ('edge', l))) for l in ls), BOT, BOT, True, 'x'), ('te', i))}), ('tr', i))
    return I.alloc(st, node, Rec('list', (mk(0, (0, 1, 2)), mk(1, (-1, -2, -3))), BOT, BOT, True, 'x'), 'trs')
for nm, d in LABELS[:5]: r(f'relabelling with {nm}', 'Triangulation.encode_relabel_edges', {'label_map': deep(d)}, fields=ofzeta(3, labels=lambda I, st, o, node: I.alloc(st, node, Rec('list', tuple(k(j) for j in range(-3, 3)), BOT, BOT, True, 'x'), 'lb')))
r('relabelling with a list that is too short', 'Triangulation.encode_relabel_edges', {'label_map': deep([0, 1])}, fields=ofzeta(3))
def labels3(I, st, o, node): return I.alloc(st, node, Rec('dict', tuple((k(l), objs('Triangle', org='shared')) for l in range(-3, 3)), BOT, BOT, True, 'x'), 'cl')
for e in (3, 7, -4, -9):
    for op in ('edge_arc', 'edge_homology'): r(f'the edge {e} of a triangulation with three edges', 'Triangulation.' + op, {'edge': C(k(e))}, fields=ofzeta(3, corner_lookup=labels3, triangle_lookup=labels3, vertex_lookup=labels3))
r('an isometry given by something that is not a dictionary', 'Triangulation.find_isometry', {'label_map': deep([0, 1, 2])})
GOOD = ((0, 1, 2), (~0, ~1, ~2))
BADTRI = [('no triangles', ()), ('a triangle with two sides', ((0, 1), (~0, ~1, ~2))), ('a triangle with four sides', ((0, 1, 2, 3), (~0, ~1, ~2))), ('one triangle', ((0, 1, 2),)), ('three triangles', ((0, 1, 2), (~0, ~1, ~2), (3, ~3, 4))),
    ('a missing label', ((0, 1, 2), (~0, ~1, 2))), ('a repeated label', ((0, 1, 2), (~0, ~1, ~1))), ('a label out of range', ((0, 1, 3), (~0, ~1, ~3))), ('an edge that occurs twice with the same orientation', ((0, 1, 2), (0, ~1, ~2))), ('labels that are not integers', (('a', 'b', 'c'), ('d', 'e', 'f'))), ('something that is not a triangle', (5, (0, 1, 2)))]
for j, (z, t) in enumerate([(3, GOOD), (6, ((0, 1, 2), (~0, 3, 4), (~1, ~3, 5), (~2, ~4, ~5)))]):
    flat = [x for tri in t for x in tri]
    for l in range(-z, z): BADTRI.append((f'the label {l} missing out of {2 * z}', tuple(tuple(0 if x == l and l else (1 if x == l else x) for x in tri) for tri in t)))
for nm, t in BADTRI:
    r(f'a triangulation with {nm}', 'Triangulation.from_tuple', {'edge_labels': deep(tuple(t))}, prep=inside('new:Triangle'))
    r(f'a triangulation with {nm}', 'Triangulation.from_tuple', {'edge_labels': deep((list(t),))}, prep=inside('new:Triangle'))
for nm, t in (('two edges', 2), ('four edges', 4), ('no edges', 0), ('one edge', 1)): r(f'a triangle with {nm}', 'Triangle.__init__', {'edges': seq('list', *[C(edge())] * t)})
r('a triangle whose sides are integers', 'Triangle.__init__', {'edges': deep([0, 1, 2])})
r('a map given by no moves', 'Triangulation.encode', {'sequence': deep([])})
r('a map given by something that is not a list', 'Triangulation.encode', {'sequence': C(INT)})
for nm, p in (('a repeated element', [0, 0]), ('a missing element', [0, 2]), ('elements counted from one', [1, 2]), ('a negative element', [0, -1])): r(f'a permutation with {nm}', 'Permutation.__init__', {'perm': deep(p)})
def perm_field(I, st, o, node, big='three'): return I.alloc(st, node, Rec('list', tuple(k(j) for j in ((0, 1, 2) if o.sym == big else (0, 1))), BOT, BOT, True, 'x'), ('perm', o.sym))
PF = dict(FIELDS, Permutation={'perm': perm_field})
r('composing a permutation with a longer one', 'Permutation.__mul__', {'other': lambda c, n: objs('Permutation', sym='three')}, fields=PF, want='sym')
r('composing a permutation with a shorter one', 'Permutation.__mul__', {'other': lambda c, n: objs('Permutation', sym='two')}, fields=dict(FIELDS, Permutation={'perm': lambda I, st, o, node: perm_field(I, st, o, node, 'self')}), want='sym')
r('composing a permutation with a number', 'Permutation.__mul__', {'other': C(INT)}, want='ni')

# ---- inexact halving
for nm, v in (('an odd number', (1, 3, -1, 7, 2 ** 70 + 1)),):
    for x in v:
        for op in ('__mul__', '__rmul__', '__call__'): r(f'half of the odd number {x}', 'Half.' + op, {'other': C(k(x))})

# ---- mapping class groups and words
MCG = 'MappingClassGroup.'
r('a mapping class group without generators', MCG + '__init__', {p: C(NONE) for p in ('pos_mapping_classes', 'curves', 'arcs')})
mc1 = on('MappingClass', '.', '.')
def group(pos=None, curves=None, arcs=None): return {'pos_mapping_classes': mapping(*pos) if pos is not None else C(NONE), 'curves': mapping(*curves) if curves is not None else C(NONE), 'arcs': mapping(*arcs) if arcs is not None else C(NONE)}
S = lambda n: C(k(n))
for nm in ('A', 'Ab', '1a', '', 'a b', 'a^', '_a', 'a-1', '(a)', 'a.b'): r(f'a generator called {nm!r}', MCG + '__init__', group(pos=((S(nm), mc1),)))
for nm in ('A', '1'): r(f'a second generator called {nm!r}', MCG + '__init__', group(pos=((S('x'), mc1), (S(nm), mc1))))
for nm in ('A', '1'): r(f'a curve called {nm!r}', MCG + '__init__', group(curves=((S(nm), curve),)))
for nm in ('A', '1'): r(f'an arc called {nm!r}', MCG + '__init__', group(arcs=((S(nm), on('Arc', '.')),)))
r('a generator whose name is a number', MCG + '__init__', group(pos=((C(INT), mc1),)))
for nm, cl in (('a map', 'Mapping'), ('an encoding', 'Encoding')): r(f'a generator that is {nm}', MCG + '__init__', group(pos=((S('a'), on(cl, '.', '.')),)))
r('a generator that is an encoding after a class', MCG + '__init__', group(pos=((S('a'), mc1), (S('b'), on('Encoding', '.', '.')))))
r('one name for a curve and a class', MCG + '__init__', group(pos=((S('a'), mc1),), curves=((S('a'), curve),)))
r('one name for an arc and a class', MCG + '__init__', group(pos=((S('a'), mc1),), arcs=((S('a'), on('Arc', '.')),)))
r('one name for a curve and an arc', MCG + '__init__', group(curves=((S('a'), curve),), arcs=((S('a'), on('Arc', '.')),)))
r('random words without letters', MCG + 'random_word', {'positive': C(FALSE), 'negative': C(FALSE), 'letters': C(NONE)})
def letters(names):
    def field(I, st, o, node): return I.alloc(st, node, Rec('dict', tuple((k(n), objs('MappingClass', 'F', 'F', org='shared')) for n in names), BOT, BOT, True, 'x'), ('mcs',))
    return dict(FIELDS, MappingClassGroup=dict(FIELDS['MappingClassGroup'], mapping_classes=field))
AB = letters(['a', 'b', 'A', 'B']); IDX = letters(['a_0', 'b_0', 'a_10', 'A_0', 'B_0', 'A_10'])
BADWORDS = {
    'an unknown letter': ['x', 'axb', 'a.x', 'x.a', 'ab.c', 'aXb', 'abx', '(a)x', 'x^2', 'a^2x', '_', 'ab_', 'a_0', '1a', 'a1', '(x)'],
    'unbalanced parentheses': ['a)', '(a', '((a)', 'a)(b', ')a(', '(', ')', '(a))', '(ab)^2)', '((ab)^2', ')(', 'a)b', '(a)b)', '(a.(b)'],
    'a misplaced power': ['a^', 'a^b', '^2', '2', 'a2', '2a', 'a^^2', 'a^(2)', '(^2)', 'a-1', 'a^2^', '^', 'a^.2', 'a.^', 'a 2', '(a)2', 'a^2.3', '-1', 'a+1', 'a^+', 'a^-', 'a(^2)', '(a^)2'],
    'characters that mean nothing': ['a!', '~a', 'a*b', '[a]', 'a^--2', 'a,b', 'a^2.5!'],
}
for why, ws in BADWORDS.items():
    for w in ws: r(f'a word with {why}: {w!r}', MCG + 'mapping_class', {'data': S(w)}, fields=AB)
for w in ('a', 'a_1', 'a_0b', 'a_00', 'a_0a_1', 'A', 'a_0.a', 'a_0_0', 'aa_0'): r(f'a word with an unknown letter: {w!r} over a_0, b_0, a_10', MCG + 'mapping_class', {'data': S(w)}, fields=IDX)
GOODWORDS = ['a', 'ab', '', 'a^2', '(ab)^3.a', 'a^-2', 'a.b', '((a)b)', '(ab^-1)^2', 'a^0', 'a b', 'aB', '(a)', 'a^10', '()', 'a.b.', 'A^-1']
for v in (NONE, num('float'), k(1.5)): r('a word that is neither text, number nor list', MCG + 'mapping_class', {'data': C(v)}, fields=AB)
r('a list with an unknown letter', MCG + 'mapping_class', {'data': deep(['a', 'x'])}, fields=AB)
r('an unknown generator', MCG + '__getitem__', {'item': S('x')}, fields=AB)

# ---- loading
BADLOADS = [(0, 2), (0, 1), (0, 0), (1, 0), (-1, 5), (-1, 9), (2, 0), (3, -1), (5, 0), (0, -3), (-2, 10), (1,), ('X',), (1, 2, 3), (), ('1', '1'), (1.0, 1), (1, 1.0), (None, 1), ('S_1',), ('',), ('SB_2',), ('SB_1',), ('SB_0',), ('xSB_3',), ('SB_3x',), ('SB_',), ('S_9_9',), ('S_0_3',), ('s_1_1',), ('S_1_1 ',), ('SB_-3',), (None,)]
for a in BADLOADS: r(f'load{a!r}', 'load.load', {'args': deep(tuple(a))})

# ---- answers that are not implemented
r('whether a lamination with arcs fills with another', 'IntegralLamination.fills_with', only=('IntegralLamination', 'MultiArc', 'Arc'))
r('the effect on homology of a map that is not made of flips', 'Move.apply_homology', only=('Crush', 'Lift', 'LinearTransformation'))
r('a slice of a compressed word', 'StraightLineProgram.__getitem__', {'value': C(one(Obj('slice', (), 'fresh', None)))})
r('a word indexed beyond its end', 'StraightLineProgram.__getitem__', {'value': C(num('int', 0, None, None, None))}, contracts=force(k(0), 'StraightLineProgram.__len__'))
r('compressing something that is not a list', 'StraightLineProgram.__init__', {'data': C(INT)})
r('compressing something that is not a list', 'StraightLineProgram.__init__', {'data': C(NONE)})

def decide(repo, e, q):
    """The normal returns of one request."""
    I = Api(repo, fields=q.fields or FIELDS)
    I.contracts.update(q.contracts)
    I.hooks.update(q.hooks)
    if q.prep: q.prep(I)
    rets, sink, v, st = E.run_entry(I, e, q.over, sym='self' if q.want == 'sym' else None)
    return I, [(s, w) for s, w in rets if w != NI], sink

def targets(repo, es, q):
    base, _, op = q.op.partition('.')
    for cls in sorted(repo.subs.get(base, ())):
        if q.only and cls not in q.only: continue
        if (cls, op) in es: yield es[cls, op]
    if (None, q.op) in es: yield es[None, q.op]

def check(repo, rep):
    rep.rule('Every listed request that has no meaningful answer is analysed with its arguments abstracted to exactly the offending ones, for every receiver class. Rule (answered): no path of such a request reaches a normal return.')
    from report import part
    es = {}
    for e in E.entries(repo, all_=True):
        if e.cls: es.setdefault((e.cls, e.node.name), e)
        else: es.setdefault((None, e.name), e)
    m = repo.modules.get('curver.load')
    if m:
        for n, b in m.names.items():
            if b[0] == 'func': es.setdefault((None, 'load.' + n), E.Entry('load.' + n, None, None, b[1], m))
    for q in REQ:
        found = False
        for e in targets(repo, es, q):
            found = True
            r = part(rep, decide, repo, e, q)
            if r is None: continue
            I, rets, sink = r
            rep.count('requests decided'); rep.count('functions visited', len(I.visited)); rep.count('refusals', len(sink))
            if rets and I.guards:
                rep.count('requests with an undecided guard'); rep.note(f'{q.what}: {e.name}: the guard {ast.unparse(I.guards[0][1])} is undecided')
            elif rets and I.given_up: rep.count('requests not decided')
            elif rets: rep.finding('answered', repo.where(e.node), f'{q.what}: {e.node.name} can return instead of raising', e.node.lineno)
        if not found: rep.note(f'{q.op} is not there any more')
    rep.need('requests decided', 150)
    e = es.get(('MappingClassGroup', 'mapping_class'))
    if e:
        for w in GOODWORDS:
            r = part(rep, decide, repo, e, R('', '', {'data': S(w)}, fields=AB))
            if r is None: continue
            I, rets, sink = r
            rep.count('well-formed words')
            if not rets: rep.note(f'the analysis does not see an answer for the word {w!r}'); rep.count('well-formed words without an answer')
