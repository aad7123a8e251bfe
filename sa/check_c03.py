"""C03: objects on different triangulations are never silently combined."""
import itertools
import ast
from dom import *
from sweep import sweep
from report import part
import entries as E
from api import LAMS, INT5, CURVES, ENC, FLIPMOVES, OTHERMOVES, objs, Api, NAT, FIELDS

BAD = 'Q'
NEQ = list(itertools.combinations(('F', 'G', 'H', BAD, 'R'), 2))

def on(classes, *fr): return lambda c, n: objs(classes, *[f if f != '.' else c.F for f in fr], org=E.ARG)
def seq(kind, parts): return lambda c, n: c.rec(kind, n, items=[p(c, (n, j)) for j, p in enumerate(parts)])
def mapping(parts, vals=None): return lambda c, n: c.rec('dict', n, items=[(p(c, (n, j)), NAT) for j, p in enumerate(parts)])
def named(parts): return lambda c, n: c.rec('dict', n, items=[(k('abc'[j]), p(c, (n, j))) for j, p in enumerate(parts)])
def mixes(good, bad, forms):
    """A foreign operand among good ones: first, last, in the middle."""
    out = []
    for name, parts in (('first of two', (bad, good)), ('last of two', (good, bad)), ('second of three', (good, bad, good)), ('last of three', (good, good, bad))):
        for fname, f in forms: out.append((f'{name} in a {fname}', f(parts)))
    return out
LIST = ('list', lambda p: seq('list', p)); TUP = ('tuple', lambda p: seq('tuple', p)); DICT = ('dictionary', mapping); NAMED = ('dictionary', named)
def seqs(good, bad): return mixes(good, bad, (LIST,))

lamB, intB, curveB, mcB, homB = (on(c, BAD) for c in (LAMS, INT5, ('Curve',), CURVES, ('HomologyClass',)))
lamG, intG, curveG, mcG, homG = (on(c, '.') for c in (LAMS, INT5, ('Curve',), CURVES, ('HomologyClass',)))
maps = on(ENC, '.', '.')
S = lambda v: [('operand', v)]
TABLE = [   # base class, operation, {parameter: [(form, builder)]}; every parameter is made foreign in turn
    ('Lamination', '__add__', {'other': S(lamB)}), ('Lamination', '__radd__', {'other': S(lamB)}),
    ('IntegralLamination', 'intersection', {'laminations': [('only argument', seq('tuple', [intB]))] + mixes(intG, intB, (('argument list', lambda p: seq('tuple', p)),))}),
    ('IntegralLamination', 'no_common_component', {'lamination': S(intB)}), ('IntegralLamination', 'fills_with', {'other': S(intB)}), ('MultiCurve', 'boundary_union', {'other': S(mcB)}),
    ('Curve', 'slope', {'lamination': S(intB)}), ('Curve', 'relative_twisting', {'b': S(intB), 'c': S(intB)}),
    ('HomologyClass', '__add__', {'other': S(homB)}), ('HomologyClass', '__radd__', {'other': S(homB)}), ('HomologyClass', '__sub__', {'other': S(homB)}),
    ('Triangulation', 'sum', {'laminations': [('only one in a list', seq('list', [lamB])), ('only one in a dictionary', mapping([lamB]))] + mixes(lamG, lamB, (LIST, TUP, DICT))}),
    ('Triangulation', 'disjoint_sum', {'laminations': [('only one in a list', seq('list', [lamB])), ('only one in a dictionary', mapping([lamB]))] + mixes(lamG, lamB, (LIST, TUP, DICT))}),
    ('Encoding', '__call__', {'other': [('lamination', lamB), ('homology class', homB)]}),
    ('Move', '__call__', {'other': [('lamination', lamB), ('homology class', homB)]}),
    ('Encoding', '__mul__', {'other': [('map', on(ENC, BAD, BAD)), ('map between triangulations', on(('Encoding', 'Mapping'), 'R', BAD))]}),
    ('Mapping', 'pl_action', {'multicurve': S(mcB)}),
    ('MappingClass', 'conjugate_by', {'other': [('map', on(ENC, BAD, BAD)), ('map between triangulations', on(('Encoding', 'Mapping'), 'R', BAD))]}),
    ('MappingClass', 'projective_invariant_lamination', {'curves': [('only one in a list', seq('list', [curveB]))]}),
    ('CurveGraph', 'quasiconvex', {'a': S(curveB), 'b': S(curveB)}), ('CurveGraph', 'tight_paths', {'a': S(mcB), 'b': S(mcB)}),
    ('CurveGraph', 'all_tight_geodesic_multicurves', {'a': S(curveB), 'b': S(curveB)}), ('CurveGraph', 'tight_geodesic', {'a': S(curveB), 'b': S(curveB)}),
    ('CurveGraph', 'geodesic', {'a': S(curveB), 'b': S(curveB)}), ('CurveGraph', 'distance', {'a': S(curveB), 'b': S(curveB)}),
]
# the group built from named curves, arcs and classes: any two of the three on different triangulations
GROUP = []
for good, bad in itertools.permutations((('pos_mapping_classes', lambda f: on('MappingClass', f, f)), ('curves', lambda f: on('Curve', f)), ('arcs', lambda f: on('Arc', f))), 2):
    GROUP.append((f'{bad[0]} against {good[0]}', {p: E.const(NONE) for p in ('pos_mapping_classes', 'curves', 'arcs')} | {good[0]: (lambda c, n, g=good: c.rec('dict', n, items=[(k('x'), g[1]('F')(c, (n, 0)))])), bad[0]: (lambda c, n, b=bad: c.rec('dict', n, items=[(k('y'), b[1](BAD)(c, (n, 0)))]))}))
for nm, mk in (('pos_mapping_classes', lambda f: on('MappingClass', f, f)), ('curves', lambda f: on('Curve', f)), ('arcs', lambda f: on('Arc', f))):
    for t, v in mixes(mk('F'), mk(BAD), (NAMED,)): GROUP.append((f'{nm}: {t}', {p: E.const(NONE) for p in ('pos_mapping_classes', 'curves', 'arcs')} | {nm: v}))

def result_name(w): return 'a value'

REFUSING = set(op for _, op, _ in TABLE)   # the operations decided here are the only ones relied on to refuse
# The two triangulations agree in everything but their signatures: sizes, vertices, surface and isometry type.
ALIKE = {cl: dict(f) for cl, f in FIELDS.items()}
for cl, names in (('Triangulation', ('zeta', 'num_triangles', 'num_vertices', 'euler_characteristic')), ('Lamination', ('zeta',)), ('HomologyClass', ('zeta',)), ('Encoding', ('zeta',)), ('Move', ('zeta',))):
    for nm in names: ALIKE[cl][nm] = lambda *a, x={'zeta': 3, 'num_triangles': 2, 'num_vertices': 1, 'euler_characteristic': -1}[nm]: k(x)
def about(fn, test):
    """Whether a guard speaks about triangulations: directly, or through names assigned in the same function."""
    seen, todo = set(), [test]
    while todo:
        t = todo.pop()
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and 'triangulation' in n.attr or isinstance(n, ast.Name) and 'triangulation' in n.id: return True
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                for s in ast.walk(fn):
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.id for y in s.targets for x in ast.walk(y)): todo.append(s.value)
                    if isinstance(s, ast.For) and any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(s.target)): todo.append(s.iter)
                    if isinstance(s, ast.NamedExpr) and s.target.id == n.id: todo.append(s.value)
    return False

def decide(repo, rep, e, what, over):
    I = Api(repo, neq=NEQ, fields=ALIKE)
    I.refuters = REFUSING
    I.contracts['Triangulation.is_isometric_to'] = lambda *a: TRUE
    surface, same = I.contracts['Triangulation.surface'], set()
    def surfaces(*a):
        v = surface(*a)
        same.update(x.oid for x in v if isinstance(x, Ref))
        return v
    I.contracts['Triangulation.surface'] = surfaces
    I.hooks['eq'] = lambda I, l, r, st, node: True if all(isinstance(x, Ref) and x.oid in same for v in (l, r) for x in v) else None
    rets, sink, v, st = E.run_entry(I, e, over)
    rets = [(s, w) for s, w in rets if w != NI]
    rep.count('requests decided')
    rep.count('functions visited', len(I.visited)); rep.count('refusals', len(sink))
    if rets and any(about(f, t) for f, t in I.guard_parts):
        rep.count('requests with an undecided comparison of triangulations'); rep.note(f'{what}: {e.name}: {[ast.unparse(t) for f, t in I.guard_parts if about(f, t)][0]} is undecided')
    elif rets and I.given_up: rep.count('requests not decided')
    elif rets: rep.finding('accepted', repo.where(e.node), f'{what} on another triangulation: {e.node.name} can return instead of raising', e.node.lineno)
    return bool(rets)

def check(repo, rep):
    rep.rule('Every operation that combines objects is analysed with each operand in turn living on a triangulation that is provably different from the required one, in every position of an argument list, list and dictionary, and for every receiver class. '
        'Rule (accepted): no path of such a call reaches a normal return. Rule (equality): triangulations with different signatures compare unequal on every path.')
    es = {}
    for e in E.entries(repo, all_=True):
        if e.cls: es.setdefault((e.cls, e.node.name), e)
    for base, op, params in TABLE:
        n = 0
        for cls in sorted(repo.subs.get(base, ())):
            e = es.get((cls, op))
            if e is None: continue
            n += 1
            for p, forms in params.items():
                for form, b in forms + ([('like every other operand', forms[0][1])] if len(params) > 1 else []):
                    part(rep, decide, repo, rep, e, f'{p} ({form})' if form != 'operand' else p, {p: b} if form != 'like every other operand' else {q: f[0][1] for q, f in params.items()})
        if not n: rep.note(f'{base}.{op} is not there any more')
        else: rep.count('operations')
    e = es.get(('MappingClassGroup', '__init__'))
    for what, over in GROUP if e else (): part(rep, decide, repo, rep, e, what, over)
    # equality of triangulations is equality of signatures
    for op, want in (('__eq__', False), ('__ne__', True)):
        e = es.get(('Triangulation', op))
        if e is None: continue
        I = Api(repo, neq=NEQ)
        def eq(I, l, r, st, node):
            a = [x for v in (l, r) for x in v if isinstance(x, Ref) and st.heap[x.oid].org.startswith('attribute signature of')]
            return False if len(a) == 2 and a[0] != a[1] else None
        I.hooks['eq'] = eq
        rets, sink, v, st = E.run_entry(I, e, {'other': on('Triangulation', BAD)})
        rep.count('requests decided')
        if all(I.truth(w, s) is want for s, w in rets): continue
        # not decided by comparing the two signatures as a whole: constants for the smallest signature and each transposition of it
        for i, j in itertools.combinations(range(6), 2):
            sig = [0, 1, 2, -1, -2, -3]; other = list(sig); other[i], other[j] = sig[j], sig[i]
            def field(I, st, o, node): return I.alloc(st, node, Rec('list', tuple(k(x) for x in (sig if o.fr[0] == 'F' else other)), BOT, BOT, True, 'attribute signature of Triangulation'), ('sig', o.fr))
            F = dict(FIELDS); F['Triangulation'] = dict(F['Triangulation'], signature=field, zeta=lambda *a: k(3), num_triangles=lambda *a: k(2))
            I = Api(repo, neq=NEQ, fields=F)
            rets, sink, v, st = E.run_entry(I, e, {'other': on('Triangulation', BAD)})
            rep.count('requests decided')
            if any(I.truth(w, s) is (not want) for s, w in rets): rep.finding('equality', repo.where(e.node), 'triangulations with different signatures can compare equal', e.node.lineno)
    rep.need('operations', 15); rep.need('requests decided', 100)
