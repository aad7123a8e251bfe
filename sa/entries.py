"""Entry points: every method and function of the kernel, with a typical well-formed receiver and arguments."""
import ast, json, os
from dom import *
from interp import Dead
from repo import AnalysisError
import api
from api import LAMS, INT5, CURVES, ARCS, COMP, ENC, FLIPMOVES, OTHERMOVES, MEM, objs, edge, LABEL, INDEX, vertex, one_move, FIELDS

ARG = 'an argument'
class Ctx:
    """What an argument builder needs: the interpreter, state, node and frames of one entry."""
    def __init__(self, I, st, node, cls, F, G): self.I, self.st, self.node, self.cls, self.F, self.G = I, st, node, cls, F, G
    def rec(self, kind, sub, **kw):
        aux = kw.pop('aux', None)
        return self.I.alloc(self.st, self.node, Rec(kind, tuple(kw['items']) if 'items' in kw else None, kw.get('elem', BOT), kw.get('key', BOT), True, ARG, None, None, aux), ('arg', sub))

def lam(*classes, sym=None): return lambda c, n: objs(classes, c.F, org=ARG, sym=sym)
def lamG(*classes): return lambda c, n: objs(classes, c.G, org=ARG)
def edge_arg(c, n): return edge(c.F) | LABEL
def const(v): return lambda c, n: v
def listof(r, kind='list'): return lambda c, n: c.rec(kind, n, elem=r(c, n))
def dictof(kr, vr): return lambda c, n: c.rec('dict', n, key=kr(c, n), elem=vr(c, n))
def either(*bs): return lambda c, n: frozenset().union(*[b(c, (n, j)) for j, b in enumerate(bs)])
def obj(cls, *frs): return lambda c, n: objs(cls, *[getattr(c, f) if hasattr(c, f) else f for f in frs], org=ARG)
def matrix(c, n): return c.rec('nd', n, elem=c.rec('nd', (n, 'r'), elem=INT, aux=('dtype', 'object')), aux=('dtype', 'object'))
EDGES = listof(edge_arg)
INTS = num('int')
ANYSTR = STR
def enc(*cls): return lambda c, n: objs(cls, c.F, c.G, org=ARG)
def same_cls(c, n): return objs(c.cls, *((c.F, c.G) if api.FIELDS and c.cls in ENC or c.cls in FLIPMOVES + OTHERMOVES else (c.F,)), org=ARG)

# by parameter name, then overridden by 'Class.method'
BY_NAME = {
    'edge': edge_arg, 'edges': EDGES, 'sequence': listof(edge_arg), 'power': const(INTS), 'k': const(INTS), 'n': const(INTS), 'n_': const(INTS), 'closed': const(BOOL), 'promote': const(BOOL), 'double': const(BOOL),
    'lamination': lam(*LAMS), 'multicurve': lam(*CURVES), 'curve': lam('Curve'), 'arc': lam('Arc'), 'drop': const(num('float')), 'intersection': const(NAT), 'max_length': const(NAT),
    'homology_class': lambda c, n: objs('HomologyClass', c.F, org=ARG), 'triangulation': obj('Triangulation', 'F'), 'source_triangulation': obj('Triangulation', 'F'), 'target_triangulation': obj('Triangulation', 'G'),
    'label_map': dictof(const(LABEL), const(LABEL)), 'matrix': matrix, 'inverse_matrix': matrix, 'vertices': lambda c, n: c.rec('list', n, elem=vertex(c.I, c.st, c.node, c.F)),
    'laminations': either(listof(lam(*LAMS)), dictof(lam(*LAMS), const(NAT))), 'avoid': either(const(NONE), listof(const(INDEX), 'set')), 'weights': listof(const(INTS)), 'geometric': listof(const(INTS)), 'algebraic': listof(const(INTS)),
    'num_flips': const(NAT), 'radius': const(NAT), 'length': const(NAT), 'triangles': listof(obj('Triangle')), 'sig': const(STR), 'strn': const(STR), 'label': const(LABEL), 'sign': const(BOOL),
    'edge_labels': listof(lambda c, n: c.rec('tuple', (n, 1), items=[LABEL] * 3), 'tuple'), 'rotate': const(NONE), 'index': const(num('int', 0)), 'N': const(num('int', 0)),
    'a': lam(*CURVES), 'b': lam(*CURVES), 'c': lam(*CURVES), 'curves': listof(lam('Curve')), 'word': const(STR), 'positive': const(BOOL), 'negative': const(BOOL), 'letters': either(const(NONE), listof(const(STR))),
    'mapping_classes': dictof(const(STR), lambda c, n: objs('MappingClass', c.F, c.F, org=ARG)), 'generators': dictof(const(STR), lambda c, n: objs('MappingClass', c.F, c.F, org=ARG)),
    'pos_mapping_classes': dictof(const(STR), lambda c, n: objs('MappingClass', c.F, c.F, org=ARG)), 'arcs': dictof(const(STR), lam('Arc')),
    'perm': listof(const(INDEX)), 'action': matrix, 'condition': matrix, 'slps': listof(obj('StraightLineProgram')), 'data': const(TOP), 'item': const(TOP), 'value': const(TOP), 'items': const(TOP), 'args': const(TOP), 'dictionary': dictof(const(INTS), const(INTS)), 'ordering': either(const(NONE), listof(const(INTS))),
    'function': const(TOP), 'move': lambda c, n: objs(FLIPMOVES, c.F, c.G, org='fresh'), 'inverse_move': lambda c, n: objs(FLIPMOVES, c.G, c.F, org='fresh'), 'iterable': const(TOP), 'iterables': const(TOP), 'key': const(TOP), 'start': const(TOP), 'left': const(BOOL), 'upper_bound': const(NONE), 'number': const(INTS), 'L': const(TOP), 'x': const(TOP), 'y': const(TOP), 'kwargs': const(TOP),
}
def slpdata(c, n): return const(TOP)(c, n)
OVER = {
    'Edge.__eq__.other': lambda c, n: edge() , 'Edge.__lt__.other': lambda c, n: edge(),
    'Lamination.__add__.other': lam(*LAMS), 'Lamination.__radd__.other': lam(*LAMS), 'Lamination.__mul__.other': const(num('int', 0)), 'Lamination.__rmul__.other': const(num('int', 0)), 'Lamination.__eq__.other': lam(*LAMS),
    'IntegralLamination.__mul__.other': const(num('int', 0)), 'IntegralLamination.__rmul__.other': const(num('int', 0)),
    'IntegralLamination.intersection.laminations': lambda c, n: c.rec('tuple', n, elem=objs(INT5, c.F, org=ARG)),
    'IntegralLamination.no_common_component.lamination': lam(*INT5), 'IntegralLamination.fills_with.other': lam(*INT5), 'MultiCurve.fills_with.other': lam(*INT5), 'MultiCurve.boundary_union.other': lam(*CURVES),
    'curves.curves': listof(lam('Curve')), 'curves': None, 'MappingClass.projective_invariant_lamination.curves': listof(lam('Curve')), 'MappingClassGroup.__init__.curves': dictof(const(STR), lam('Curve')),
    'MappingClassGroup.cayley.generators': listof(const(STR)), 'MappingClassGroup.mapping_class.data': const(STR | INT | frozenset()), 
    'Encoding.__init__.sequence': lambda c, n: c.rec('list', n, elem=objs(FLIPMOVES, '?', '?', org=ARG)), 'Encoding.__eq__.other': same_cls, 'Encoding.__call__.other': lambda c, n: objs(LAMS + ('HomologyClass',), c.F, org=ARG), 'MappingClass.__call__.other': lambda c, n: objs(LAMS + ('HomologyClass',), c.F, org=ARG),
    'Encoding.__mul__.other': lambda c, n: objs(ENC if c.F == c.G else ('Encoding', 'Mapping'), *(('H', c.F) if c.F != c.G else (c.F, c.F)), org=ARG), 'Encoding.__getitem__.value': const(INT | one(Obj('slice', (), 'fresh', None))),
    'Mapping.__eq__.other': same_cls, 'MappingClass.conjugate_by.other': lambda c, n: objs(('Mapping',), 'H', c.F, org=ARG), 'MappingClass.is_conjugate_to.other': lambda c, n: objs('MappingClass', 'H', 'H', org=ARG),
    'FiniteSubgroup.is_conjugate_to.other': lambda c, n: objs('FiniteSubgroup', 'H', org=ARG), 'FiniteSubgroup.__eq__.other': same_cls, 'FiniteSubgroup.__getitem__.item': const(STR), 'FiniteSubgroup.__init__.generators': either(const(NONE), listof(const(STR))),
    'MappingClassGroup.__getitem__.item': const(STR), 'MappingClassGroup.__eq__.other': same_cls, 'MappingClassGroup.lamination.geometric': dictof(const(STR), const(INT)),
    'CurveGraph.tight_paths.length': const(NAT),
    'HomologyClass.__add__.other': same_cls, 'HomologyClass.__radd__.other': same_cls, 'HomologyClass.__sub__.other': same_cls, 'HomologyClass.__eq__.other': same_cls,
    'Triangulation.__call__.geometric': listof(const(INTS)), 'Triangulation.__eq__.other': obj('Triangulation', 'F'), 'Triangulation.find_isometry.other': obj('Triangulation', 'H'), 'Triangulation.isometries_to.other': obj('Triangulation', 'H'), 'Triangulation.is_isometric_to.other': obj('Triangulation', 'H'),
    'Triangulation.encode_relabel_edges.label_map': either(dictof(const(LABEL), const(LABEL)), listof(const(LABEL))),
    'Triangulation.encode.sequence': lambda c, n: c.rec('list', n, elem=TOP), 'Triangulation.lamination.weights': either(lambda c, n: c.rec('list', n, elem=INT), dictof(const(INDEX), const(INT))), 'Triangulation.encode_pachner_1_3.triangles': either(const(NONE), listof(obj('Triangle'), 'set')), 'Triangulation.__getitem__.index': const(num('int', 0)),
    'Triangle.__init__.edges': lambda c, n: c.rec('list', n, items=[edge()] * 3), 'Triangle.__getitem__.index': const(INT), 'Triangle.__contains__.other': lambda c, n: edge(), 'Triangle.__eq__.other': obj('Triangle'),
    'Permutation.__getitem__.item': const(INDEX), 'Permutation.__call__.item': const(INDEX), 'Permutation.__mul__.other': obj('Permutation'), 'Permutation.__eq__.other': obj('Permutation'), 'Permutation.is_conjugate_to.other': obj('Permutation'), 'Permutation.from_index.index': const(num('int', 0)),
    'PartialLinearFunction.__mul__.other': obj('PartialLinearFunction'), 'PartialLinearFunction.__eq__.other': obj('PartialLinearFunction'), 'PartialLinearFunction.__ne__.other': obj('PartialLinearFunction'), 'PartialLinearFunction.__contains__.item': listof(const(INT)), 'PartialLinearFunction.__call__.item': listof(const(INT)),
    'Twist.__init__.curve': lam('Curve'), 'Half.__mul__.other': const(TOP), 'Half.__rmul__.other': const(TOP), 'Half.__call__.other': const(TOP), 'Move.__call__.other': lambda c, n: objs(LAMS + ('HomologyClass',), c.F, org=ARG), 'Move.__eq__.other': same_cls,
    'StraightLineProgram.__init__.data': listof(const(TOP)), 'StraightLineProgram.__add__.other': obj('StraightLineProgram'), 'StraightLineProgram.__radd__.other': obj('StraightLineProgram'), 'StraightLineProgram.__mul__.other': const(num('int', 0)), 'StraightLineProgram.__rmul__.other': const(num('int', 0)), 'StraightLineProgram.__lshift__.index': const(num('int', 0)), 'StraightLineProgram.__rshift__.index': const(num('int', 0)),
    'create_encoding.sequence': lambda c, n: c.rec('list', n, elem=TOP), 'CurveGraph.quasiconvex.a': lam('Curve'),
}

FRAMED1 = LAMS + ('HomologyClass', 'Triangulation', 'CurveGraph', 'MappingClassGroup', 'FiniteSubgroup')
FRAMED2 = ('Encoding', 'Mapping') + tuple(m for m in FLIPMOVES + OTHERMOVES if m not in ('Twist', 'HalfTwist'))
def receiver(cls, org='self', sym=None):
    """(value, F, G) of a typical receiver of the class."""
    if cls in ('MappingClass', 'Twist', 'HalfTwist'): return one(Obj(cls, ('F', 'F'), org, sym)), 'F', 'F'
    if cls in FRAMED2: return one(Obj(cls, ('F', 'G'), org, sym)), 'F', 'G'
    if cls in FRAMED1: return one(Obj(cls, ('F',), org, sym)), 'F', 'G'
    if cls == 'Edge': return one(EdgeA('F', sym)), 'F', 'G'
    return one(Obj(cls, (), org, sym)), 'F', 'G'

class Entry:
    def __init__(self, name, cls, dcls, node, module): self.name, self.cls, self.dcls, self.node, self.module = name, cls, dcls, node, module
    @property
    def qual(self): return (self.dcls + '.' if self.dcls else self.module.dotted.split('.')[-1] + '.') + self.node.name
    def __repr__(self): return self.name

CONCRETE = LAMS + ENC + FLIPMOVES + OTHERMOVES + ('HomologyClass', 'Triangulation', 'Triangle', 'Edge', 'CurveGraph', 'MappingClassGroup', 'FiniteSubgroup', 'PartialLinearFunction', 'Permutation', 'StraightLineProgram', 'UnionFind', 'Half', 'TopologicalType')
def baseline():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json'), encoding='utf-8') as h: return json.load(h)
BASE = None
def entries(repo, all_=False):
    """Every (receiver class, method) pair of the kernel, and every function."""
    out = []
    for mname, m in sorted(repo.modules.items()):
        if not mname.startswith('curver.kernel'): continue
        for n, b in m.names.items():
            if b[0] == 'func' and b[1] in repo.owner: out.append(Entry(f'{mname.split(".")[-1]}.{n}', None, None, b[1], m))
    for cls in list(repo.classes):
        ci = repo.classes[cls]
        if not ci.module.dotted.startswith('curver.kernel') or cls in ('Move', 'FlipGraphMove'): continue
        seen = set()
        for d in repo.mro(cls):
            di = repo.classes.get(d)
            if di is None: continue
            for name, node in di.methods.items():
                if name in seen: continue
                seen.add(name)
                out.append(Entry(f'{cls}.{name}', cls, d, node, di.module))
    if all_: return out
    global BASE
    BASE = BASE or baseline()
    # a method counts as listed when any class it is inherited from, or inherits from, lists it
    names = set(q.split('.')[-1] + '@' + q.split('.')[0] for q in BASE)
    def listed(e):
        if not e.cls: return e.qual in BASE
        return any(e.node.name + '@' + c in names for c in repo.mro(e.cls))
    return [e for e in out if listed(e)]
def base_params(repo, e):
    global BASE
    BASE = BASE or baseline()
    if not e.cls: return BASE.get(e.qual)
    for c in repo.mro(e.cls):
        if f'{c}.{e.node.name}' in BASE: return BASE[f'{c}.{e.node.name}']
    return None

def build_args(I, st, e, F, G, over=None):
    """{parameter: value} for everything after self."""
    c = Ctx(I, st, e.node, e.cls, F, G)
    a = e.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    decs = [d for d, _ in I.repo.decorators(e.node)]
    if e.dcls and 'staticmethod' not in decs: names = names[1:]
    names += [p.arg for p in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
    env = {}
    bp = base_params(I.repo, e) or []
    if e.dcls and 'staticmethod' not in decs: bp = bp[1:]
    dflt = dict(zip([p.arg for p in reversed(a.posonlyargs + a.args)], reversed(a.defaults)))
    for pos, own in enumerate(names):
        n = own if own in bp or not bp else bp[pos] if pos < len(bp) and bp[pos] not in names else None
        if n is None:   # a parameter that the operation did not have
            env[own] = I.default(e.module, dflt[own], st, Fn(e.node, None, None, None)) if own in dflt else TOP
            continue
        env[own] = arg_value(I, c, e, n, over)
    return env
def arg_value(I, c, e, n, over):
        env = {}
        if over and n in over: return over[n](c, n)
        b = None
        for d in ([x for x in I.repo.mro(e.cls)] if e.cls else [e.module.dotted.split('.')[-1]]):
            b = b or OVER.get(f'{d}.{e.node.name}.{n}')
        b = b or OVER.get(f'{e.node.name}.{n}') or BY_NAME.get(n)
        return b(c, n) if b else TOP

def run_entry(I, e, over=None, st=None, recv=None, sym=None):
    """Analyse the body of an entry. Returns (normal returns, exceptions)."""
    st = st or State()
    if e.cls:
        rv, F, G = receiver(e.cls, sym=sym)
        if recv is not None: rv = recv(I, st, e)
    else: rv, F, G = None, 'F', 'G'
    if e.node.name == '__init__' or e.cls == 'UnionFind': rv = I.alloc(st, e.node, Rec('inst', cls=e.cls, fields={}), 'self')
    decs = [d for d, _ in I.repo.decorators(e.node)]
    env = build_args(I, st, e, F, G, over)
    first = None
    if e.dcls and 'staticmethod' not in decs:
        first = one(Cls(e.cls)) if 'classmethod' in decs or e.node.name == '__new__' else rv
    I.sinks.append([])
    I.last_returns = []
    try:
        bound = Fn(e.node, None, None, e.dcls)
        try: v = run_bound(I, bound, first, env, st, e)
        except Dead: v = None
        rets = [(s, w) for s, w, _ in I.last_returns] if v is not None or I.last_returns else []
        if v is not None and not rets: rets = [(st, v)]
        return rets, I.sinks[-1], v, st
    finally: I.sinks.pop()

def run_bound(I, fn, first, env, st, e):
    """run_function with the parameters already bound."""
    full = dict(env)
    a = e.node.args
    if first is not None: full[(a.posonlyargs + a.args)[0].arg] = first
    saved = I.bind
    def bind(f, args, kw, st_, node):
        if f is fn and args is MARK: 
            return full
        return saved(f, args, kw, st_, node)
    I.bind = bind
    try: return I.run_function(fn, MARK, {}, st, e.node, top=True)
    finally: I.bind = saved
MARK = []
