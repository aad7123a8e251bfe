"""C10: every lamination carries the class its contents justify."""
import ast
from itertools import product
from dom import *
import terms as T
import entries as E
import api
from api import Api, objs, LAMS, INT5, CURVES, ARCS, COMP, FLIPMOVES, OTHERMOVES, ENC, FIELDS, frame_of
from check_c13 import force, on, deep
from sweep import sweep
from model import Model

PRIM = {'Triangulation.edge_arc': ('Arc',), 'Triangulation.edge_curve': ('Curve',), 'Triangulation.curve_from_cut_sequence': ('Curve',), 'Triangulation.as_lamination': ('MultiArc',),
    'Triangulation.empty_lamination': ('IntegralLamination',), 'Triangulation.edge_arcs': ('Arc',), 'Triangulation.edge_curves': ('Curve',)}
PROMOTING = ('Lamination.promote', 'Triangulation.lamination', 'Triangulation.__call__', 'Triangulation.lamination_from_cut_sequence', 'Triangulation.sum', 'Lamination.non_peripheral')
APPLY = ['Encoding.__call__', 'MappingClass.__call__', 'Move.__call__', 'FlipGraphMove.__call__'] + [m + '.apply_lamination' for m in FLIPMOVES + OTHERMOVES]

def retag(v, f):
    """Rewrite the label of every lamination of a value."""
    return frozenset(x._replace(sym=f(x)) if isinstance(x, Obj) and x.cls in LAMS else x for x in v)
class Classes(Api):
    """Laminations whose class was named where they were built are labelled 'made', those that were promoted 'promoted'."""
    def __init__(self, repo, **kw):
        super().__init__(repo, **kw)
        for q in [q for q in self.contracts if q.startswith('new:') and q[4:].rstrip('+') == 'Lamination']: self.contracts[q] = self.made(self.contracts[q])
        for q in PROMOTING:
            if q in self.contracts: self.contracts[q] = self.promoted(self.contracts[q])
        for q in APPLY:
            if q in self.contracts: self.contracts[q] = self.applied(self.contracts[q])
        for c in repo.subs.get('Lamination', ()):
            for m in ('__mul__', '__rmul__'):
                if m in repo.classes[c].methods: self.contracts[f'{c}.{m}'] = self.times
    def times(self, I, st, f, args, kw, node):
        """A multiple, by the table that scaling is checked against."""
        if len(args) != 2 or isinstance(args[1], tuple): return None
        lams = [v for v in args if v and all(isinstance(x, Obj) and x.cls in LAMS for x in v)]
        if len(lams) != 1: return None
        c = I.const_index(args[1] if lams[0] is args[0] else args[0])
        out = BOT
        for x in lams[0]:
            for cl in (scaled(x.cls, 'zero' if c == 0 else 'one') if c in (0, 1) else (scaled(x.cls, 'two') or LAMS) + (() if c is not None else (x.cls, 'IntegralLamination'))): out |= objs(cl, x.fr[0], org='fresh', sym='promoted')
        return out
    def made(self, c):
        def g(I, st, cls, args, kw, node):
            v = c(I, st, cls, args, kw, node)
            w = args[1] if len(args) > 1 else kw.get('geometric', TOP)
            zero = I.all_zero(w, st)
            return retag(v, lambda x: 'zero' if zero else ('made', x.cls)) if v else v
        return g
    def all_zero(self, w, st):
        if isinstance(w, tuple) or len(w) != 1: return False
        x = next(iter(w))
        if not isinstance(x, Ref): return False
        r = st.heap[x.oid]
        vs = r.items if r.items is not None else [r.elem]
        return bool(vs) and all(len(v) == 1 and isinstance(next(iter(v)), K) and next(iter(v)).v == 0 for v in vs)
    def promoted(self, c):
        def g(I, st, f, args, kw, node):
            v = c(I, st, f, args, kw, node)
            if v is None: return None
            env = I.bind(f, args, kw, st, node)
            if 'promote' in env and I.truth(env['promote'], st) is not True: return retag(v, lambda x: ('made', 'Lamination') if x.cls == 'Lamination' else 'promoted')
            return retag(v, lambda x: 'promoted')
        return g
    def applied(self, c):
        def g(I, st, f, args, kw, node):
            v = c(I, st, f, args, kw, node)
            if v is None: return None
            env = I.bind(f, args, kw, st, node)
            o = env.get('other') or env.get('lamination') or BOT
            if any(isinstance(x, Obj) and x.cls in OTHERMOVES + ('Encoding',) for x in env.get('self', BOT)): return retag(v, lambda x: 'promoted')
            if any(not isinstance(x, Obj) for x in v) or any(not isinstance(x, Obj) for x in o): return v
            return frozenset(y._replace(sym=x.sym) for y in v for x in o if x.cls == y.cls)
        return g

def laminations(I, st, v, seen=None, key=True):
    """Every lamination reachable from a returned value."""
    seen = seen if seen is not None else set()
    for x in v or ():
        if isinstance(x, Obj) and x.cls in LAMS: yield x
        elif isinstance(x, Ref) and x.oid not in seen and x.oid in st.heap:
            seen.add(x.oid)
            r = st.heap[x.oid]
            for i in r.items or ():
                for p in (i if isinstance(i, tuple) else (i,)): yield from laminations(I, st, p, seen)
            yield from laminations(I, st, r.elem, seen); yield from laminations(I, st, r.key, seen)

def line(repo, e): return e.node.lineno
def loose(x): return isinstance(x.sym, tuple) and x.sym[0] == 'made'

class Run:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.es = {(e.cls, e.node.name): e for e in E.entries(repo, all_=True) if e.cls}
    def __call__(self, cls, name, contracts=None, over=None, prep=None, sym=None, fields=None, hooks=None):
        e = self.es.get((cls, name))
        if e is None: self.rep.note(f'{cls}.{name} is not there any more'); return None
        I = Classes(self.repo, fields=fields or FIELDS)
        for q in (cls, e.dcls): I.contracts.pop(f'{q}.{name}', None)
        I.contracts.update(contracts or {})
        I.hooks.update(hooks or {})
        if prep: prep(I)
        rets, sink, v, st = E.run_entry(I, e, over or {}, sym=sym)
        self.rep.count('functions visited', len(I.visited)); self.rep.count('cases')
        return I, [(s, w) for s, w in rets if w != NI], e
    def classes(self, what, r, allowed, operand=(), table=False):
        """Every returned lamination was promoted, or has one of the allowed classes."""
        if r is None: return
        I, rets, e = r
        bad, fine = set(), False
        for st, v in rets:
            self.rep.count('results')
            for x in v:
                if not isinstance(x, Obj) or x.cls not in LAMS: self.rep.note(f'{what}: the result is undecided'); self.rep.count('undecided'); continue
                self.rep.count('classes decided')
                if x.sym == 'promoted' or x.sym in operand or x.cls in allowed: fine = True
                elif x.sym == 'zero' and x.cls == 'IntegralLamination' and 'empty' in allowed: fine = True
                else: bad.add(x.cls)
        if table and fine and bad:  # joined over cases that the analysis does not tell apart
            self.rep.note(f'{what}: which of several results it is is undecided'); self.rep.count('undecided'); return
        for c in sorted(bad): self.rep.finding('class', self.repo.where(e.node), f'{what} is given the class {c}', e.node.lineno)

MULT = [('zero', k(0)), ('one', k(1)), ('two', k(2)), ('seven', k(7)), ('at least two', num('int', 2))]
def scaled(cls, m):
    if m == 'zero': return ('IntegralLamination',)
    if m == 'one': return (cls,)
    if cls == 'Lamination': return ()   # twice a half is integral
    return {'Curve': ('MultiCurve',), 'Arc': ('MultiArc',)}.get(cls, (cls,))
def multiples(run):
    for cls in LAMS:
        for op in ('__mul__', '__rmul__'):
            for m, v in MULT:
                want = scaled(cls, m)
                r = run(cls, op, over={'other': E.const(v)}, prep=lambda I: [I.contracts.pop(q, None) for q in list(I.contracts) if q.endswith('.__mul__') and q.split('.')[0] in LAMS])
                run.classes(f'{m} times {"an" if cls[0] in "AI" else "a"} {cls}', r, want, operand=('self',) if m == 'one' else (), table=True)

def summed(parts):
    """The class of a sum of disjoint parts [(class, multiplicity)], ignoring the empty ones."""
    ps = [(c, m) for c, m in parts if m != 0 and c != 'empty']
    if not ps: return ('IntegralLamination',)
    cs = set(c for c, m in ps)
    if len(ps) == 1 and ps[0][1] == 1 and cs <= set(COMP): return tuple(cs)
    if cs <= set(ARCS): return ('MultiArc',)
    if cs <= set(CURVES): return ('MultiCurve',)
    return ('IntegralLamination',)
def sums(run):
    hooks = {'obj_truth': lambda I, x: not (isinstance(x.sym, tuple) and x.sym[1] == 'empty') if x.cls in LAMS else None,
        'obj_eq': lambda a, b: a.sym == b.sym if isinstance(a.sym, tuple) and isinstance(b.sym, tuple) and a.sym[0] == b.sym[0] == 'part' else None}
    KINDS = ('Curve', 'MultiCurve', 'Arc', 'MultiArc', 'IntegralLamination')
    cases = [()]
    for c in KINDS + ('empty',): cases += [((c, m),) for m in (0, 1, 2)]
    for a, b in product(KINDS + ('empty',), repeat=2): cases += [((a, 1), (b, 1))]
    for a, b in product(('Curve', 'Arc', 'MultiCurve'), repeat=2): cases += [((a, 1), (b, 0)), ((a, 0), (b, 1)), ((a, 2), (b, 0))]
    cases += [(('Curve', 1), ('Curve', 1), ('Curve', 1)), (('Arc', 1), ('MultiArc', 2), ('Arc', 3)), (('Curve', 1), ('empty', 1), ('empty', 1)), (('Curve', 1), ('MultiCurve', 1), ('Arc', 1)), (('Arc', 0), ('empty', 1), ('Arc', 1)), (('Arc', 0), ('Arc', 0), ('Curve', 2))]
    def part(j, c):
        cls = {'empty': 'IntegralLamination', 'fraction': 'Lamination'}.get(c, c)
        return lambda ctx, n: objs(cls, ctx.F, org=E.ARG, sym=('part', c if c in ('empty', 'fraction') else 'full', j))
    def parts(case, kind):
        def b(c, n):
            if kind == 'dict': return c.rec('dict', n, items=[(part(j, x)(c, n), k(m)) for j, (x, m) in enumerate(case)])
            return c.rec(kind, n, items=[part(j, x)(c, n) for j, (x, m) in enumerate(case)])
        return b
    for case in cases:
        for kind in ('dict', 'list', 'tuple', 'set'):
            if kind != 'dict' and any(m != 1 for c, m in case): continue
            name = 'nothing' if not case else ' and '.join(('an empty lamination' if c == 'empty' else f'{m} {c}') for c, m in case)
            for integral in (True, False):
                if not integral and (not case or all(c == 'empty' or m == 0 for c, m in case)): continue
                con = force(k(integral), 'Lamination.is_integral')
                r = run('Triangulation', 'disjoint_sum', con, {'laminations': parts(case, kind)}, hooks=hooks, prep=lambda I: I.contracts.pop('Triangulation.sum', None))
                run.classes(f'the disjoint sum ({kind}) of {name}', r, summed(case) + ('empty',) if integral else (), table=True)
                if not integral: continue
                r = run('Triangulation', 'sum', con, {'laminations': parts(case, kind)}, hooks=hooks)
                run.classes(f'the sum ({kind}) of {name}', r, summed(case) if summed(case) == ('IntegralLamination',) and all(c == 'empty' or m == 0 for c, m in case) else (), table=True)
    def integral(I, st, f, a, kw, n): return k(not all(isinstance(x.sym, tuple) and x.sym[1] == 'fraction' for x in a[0]))
    for case in ((('fraction', 1),), (('fraction', 1), ('Curve', 1)), (('Curve', 1), ('fraction', 1)), (('Arc', 1), ('fraction', 2), ('Arc', 1)), (('fraction', 1), ('fraction', 1)), (('MultiCurve', 1), ('empty', 1), ('fraction', 1))):
        r = run('Triangulation', 'disjoint_sum', {'Lamination.is_integral': integral}, {'laminations': parts(case, 'dict')}, hooks=hooks, prep=lambda I: I.contracts.pop('Triangulation.sum', None))
        run.classes(f'the disjoint sum of {" and ".join(f"{m} {c}" for c, m in case)}', r, (), table=True)
    for cls in LAMS:
        for o in LAMS:
            for op in ('__add__', '__radd__'):
                r = run(cls, op, over={'other': lambda c, n: objs(o, c.F, org=E.ARG, sym='other')}, sym='self', hooks={'obj_truth': hooks['obj_truth']}, prep=lambda I: I.contracts.pop('Lamination.__add__', None))
                run.classes(f'the sum of a {cls} and a {o}', r, (), operand=(), table=True)
    SPLIT = {'multiarc': ARCS, 'multicurve': CURVES}
    for cls in INT5:
        for q, ok in SPLIT.items():
            other = CURVES if ok is ARCS else ARCS
            for comps in ((), ('Arc',), ('Curve',), ('Arc', 'Arc'), ('Curve', 'Curve'), ('Curve', 'Arc'), ('Arc', 'Curve', 'Curve'), ('Curve', 'Arc', 'Arc')):
                if cls in CURVES and 'Arc' in comps or cls in ARCS and 'Curve' in comps or cls in COMP and comps != (cls,): continue
                for m in (1, 2) if cls not in COMP else (1,):
                    def comp(I, st, f, a, kw, n, comps=comps, m=m):
                        return I.alloc(st, n, Rec('dict', tuple((objs(c, frame_of(a[0]), sym=('part', 'full', j)), k(m)) for j, c in enumerate(comps)), BOT, BOT, bool(comps), api.MEM), ('cd', comps))
                    con = {x + '.components': comp for x in ('IntegralLamination', 'Curve', 'Arc')} | force(TRUE, 'Lamination.is_integral')
                    mine = [(c, m) for c in comps if c in ok]
                    r = run(cls, q, con, hooks=hooks, prep=lambda I: [I.contracts.pop(x, None) for x in ('Triangulation.disjoint_sum', 'Triangulation.empty_lamination')])
                    allowed = summed(mine)
                    if mine and len(mine) == len(comps): allowed += (cls,)   # the lamination itself
                    run.classes(f'{q} of {"an" if cls[0] in "AI" else "a"} {cls} with components {", ".join(comps) or "none"} of multiplicity {m}', r, allowed + ('empty',), table=True)

def moves(run):
    repo, rep = run.repo, run.rep
    for m in FLIPMOVES + OTHERMOVES:
        for q in ('apply_lamination', '__call__'):
            for cls in LAMS:
                over = {n: (lambda c, n_: objs(cls, c.F, org=E.ARG, sym='operand')) for n in ('lamination', 'other')}
                r = run(m, q, over=over)
                if r is None: continue
                if m in FLIPMOVES: run.classes(f'the image of {"an" if cls[0] in "AI" else "a"} {cls} under {q} of {m}', r, (cls,))
                else: run.classes(f'the image of {"an" if cls[0] in "AI" else "a"} {cls} under {q} of {m}', r, ())
    for m in ENC:
        for cls in LAMS:
            for pw in ((None,) if m != 'MappingClass' else (k(0), k(1), num('int', 1), k(-1), num('int', None, -1))):
                over = {'other': lambda c, n: objs(cls, c.F, org=E.ARG, sym='operand')}
                if pw is not None: over['power'] = E.const(pw)
                def prep(I):
                    own = I.contracts.pop('Encoding.__call__', None)
                    if m == 'MappingClass': I.contracts['Encoding.__call__'] = own
                    if pw in (k(-1), num('int', None, -1)): I.contracts['MappingClass.__call__'] = back
                back = Classes(repo).contracts.get('MappingClass.__call__')
                r = run(m, '__call__', over=over, prep=prep, hooks={'nonflip_classes': ()})
                if r is None: continue
                run.classes(f'the image of {"an" if cls[0] in "AI" else "a"} {cls} under {m}', r, (cls,))

def promotion(run):
    for cls in LAMS:
        r = run(cls, 'promote', force(FALSE, 'Lamination.is_integral'), sym='self')
        run.classes('a lamination that is not integral, promoted,', r, ('Lamination',) if cls == 'Lamination' else (cls,), operand=('self',))
        for c in INT5:
            def shorten(I, st, f, a, kw, n):
                G = api.fresh(I, n, 'S', a[0])
                return api.tup(I, st, n, objs(c, G, sym='short'), objs('Mapping', frame_of(a[0]), G), sub=('shorten', c))
            r = run(cls, 'promote', force(TRUE, 'Lamination.is_integral') | {'IntegralLamination.shorten': shorten}, sym='self')
            own = (cls,) if cls in COMP else ()
            run.classes(f'an integral lamination that shortens to {"an" if c[0] in "AI" else "a"} {c}, promoted,', r, (c,))
    # shortening ends with a disjoint sum of pieces
    for cls in INT5:
        r = run(cls, 'shorten')
        if r is None: continue
        I, rets, e = r
        for st, v in rets:
            for x in v:
                if not isinstance(x, Ref): run.rep.note('the result of shorten is undecided'); continue
                its = st.heap[x.oid].items
                for y in (its[0] if its else BOT):
                    if not isinstance(y, Obj): continue
                    run.rep.count('classes decided')
                    if loose(y) and y.sym[1] != cls: run.rep.finding('class', run.repo.where(e.node), f'the short form of {"an" if cls[0] in "AI" else "a"} {cls} is given the class {y.cls} wherever it is built', e.node.lineno)
    # which weights are integral
    from fractions import Fraction as Q
    from model import TORUS, SPHERE3
    repo, rep = run.repo, run.rep
    if ('Lamination', 'is_integral') not in run.es: return
    for tris, nm in ((TORUS, 'torus'), (SPHERE3, 'sphere')):
        for ws, want in (((2, 1, 1), True), ((0, 0, 0), True), ((-1, 0, 0), True), ((-1, -1, -1), True), ((Q(4, 2), 2, 2), True), ((Q(1, 2), Q(1, 2), 1), False), ((Q(1, 2), Q(1, 2), 0), False), ((Q(3, 2), 0, Q(3, 2)), False), ((0, Q(1, 3), Q(1, 3)), False), ((Q(-1, 2), 0, 0), False), ((Q(1), Q(1), Q(1)), False)):
            I = Model(repo, gated=True)
            I.contracts.pop('Lamination.is_integral', None)
            for q in ('Lamination.dual_weight', 'Lamination.__call__'): I.contracts.pop(q, None)
            st = State()
            v = I.lamination(st, tris, ('w', tris), 'Lamination', vals=[k(w) if isinstance(w, int) else num('frac', t=T.const(w)) for w in ws])
            r = I.invoke(st, v, 'is_integral')
            x = next(iter(r)) if r and len(r) == 1 else None
            rep.count('cases')
            if not isinstance(x, K): rep.count('undecided'); rep.note(f'whether the weights {tuple(map(str, ws))} on a {nm} are integral is undecided'); continue
            rep.count('weights decided')
            if bool(x.v) != want: rep.finding('integral', repo.where(run.es['Lamination', 'is_integral'].node), f'the weights {", ".join(map(str, ws))} on a {nm} {"do not " if want else ""}count as integral', run.es['Lamination', 'is_integral'].node.lineno)

EXEMPT = {'__mul__', '__rmul__', '__add__', '__radd__', 'promote', 'disjoint_sum', 'apply_lamination', '__call__', 'multiarc', 'multicurve', '__init__', 'shorten'}
COMPONENTS = {'components', 'peripheral_components', 'parallel_components', 'peek_component'}
def everything(repo, rep):
    """Results of every other operation."""
    for e, I, rets, sink, v, st in sweep_classes(repo, rep):
        name = e.node.name
        for ev in I.events:
            if ev['rule'] == 'attr': rep.finding('attr', ev['where'], ev['detail'], ev['line'])
        if name in EXEMPT and not (e.cls == 'Triangulation' and name == '__call__'): continue
        allowed = PRIM.get(e.qual)
        bad = set()
        for s, w in rets:
            promote = None
            for x in laminations(I, s, w):
                rep.count('returned laminations')
                if allowed is not None:
                    if x.cls not in allowed: bad.add(f'can return {"an" if x.cls[0] in "AI" else "a"} {x.cls}')
                    continue
                if name in COMPONENTS and x.cls not in COMP: bad.add(f'lists {"an" if x.cls[0] in "AI" else "a"} {x.cls} as a component')
                if not loose(x) or x.sym == 'zero': continue
                bad.add(f'can return {"an" if x.cls[0] in "AI" else "a"} {x.cls} whose class nothing justifies')
        for b in sorted(bad): rep.finding('unjustified', repo.where(e.node), f'{name} {b}', e.node.lineno)
def sweep_classes(repo, rep):
    import sweep as S
    old = S.Api
    S.Api = Classes
    try: yield from S.sweep(repo, rep, over=lambda e: {'promote': E.const(TRUE)}, only=None)
    finally: S.Api = old

def check(repo, rep):
    rep.rule('Decision tables: scaling, sums, disjoint sums, splitting into arcs and curves, promotion and the image under every move are analysed for every class of operand (and multiplicity 0, 1, 2, at least 2). Rule (class): each result either went through promotion or has the class its parts justify.')
    rep.rule('Value flow over every operation. Rule (unjustified): no lamination whose class was merely named where it was built is returned, except by the documented primitive constructors, which return exactly their class; components are single curves or arcs.')
    rep.rule('Rule (integral): constant weights are integral exactly when all weights and all dual weights are integers.')
    rep.rule('Rule (attr): no operation is requested from an object of a class that does not offer it.')
    run = Run(repo, rep)
    from report import part
    for f in (multiples, sums, moves, promotion): part(rep, f, run)
    everything(repo, rep)
    rep.need('classes decided', 300); rep.need('returned laminations', 100); rep.need('weights decided', 12)
