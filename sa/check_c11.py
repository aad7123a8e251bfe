"""C11: the Nielsen-Thurston questions agree with each other."""
import ast
from fractions import Fraction as Q
from dom import *
import terms as T
import entries as E
import api
from api import Api, objs, FIELDS, MEM, frame_of
from model import Model
from interp import Dead
from check_c13 import force, on, PERIODIC, APERIODIC

ORDERS = [('zero', k(0)), ('one', k(1)), ('two', k(2)), ('three', k(3)), ('twelve', k(12)), ('at least two', num('int', 2)), ('positive', num('int', 1))]

def value(v):
    """The constant a value is, or None."""
    if v is None or len(v) != 1: return None
    x = next(iter(v))
    return (x.v,) if isinstance(x, K) else None

class Ask:
    """Runs one method of a mapping class with answers to other questions forced."""
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.es = {(e.cls, e.node.name): e for e in E.entries(repo, all_=True) if e.cls}
    def run(self, cls, name, contracts, over=None, fields=None, prep=None, gated=False, sym='self'):
        e = self.es.get((cls, name))
        if e is None: self.rep.note(f'{cls}.{name} is not there any more'); return None
        I = Api(self.repo, fields=fields or FIELDS, gated=gated)
        for n in ('is_identity', 'is_periodic', 'is_reducible', 'is_pseudo_anosov', 'is_multitwist', 'subgroup'): I.contracts.pop('MappingClass.' + n, None)
        for n in (name,): I.contracts.pop(f'{cls}.{n}', None); I.contracts.pop(f'{e.dcls}.{n}', None)
        I.contracts.update(contracts)
        if prep: prep(I)
        rets, sink, v, st = E.run_entry(I, e, over or {}, sym=sym)
        self.rep.count('functions visited', len(I.visited)); self.rep.count('cases')
        return I, [(s, w) for s, w in rets], sink, e
    def refused(self, *a, allow=(), **kw):
        """'raises', (what,) for an answer, or None when a refusal is undecided."""
        r = self.run(*a, **kw)
        if r is None: return None
        I, rets, sink, e = r
        rets = [w for s, w in rets if value(w) not in allow]
        if not rets: return 'raises'
        return None if I.guards else ('given',)
    def answer(self, *a, **kw):
        """(constant,), 'raises' or None when undecided."""
        r = self.run(*a, **kw)
        if r is None: return None
        I, rets, sink, e = r
        if not rets: return 'raises' if sink or not I.guards else None
        vs = set(value(w) for s, w in rets)
        if None in vs or len(vs) > 1: return None
        return vs.pop()

# ------------------------------------------------------------------ the table of types
def table(ask, rep):
    types = {}
    for on_, o in ORDERS:
        for red in (True, False):
            con = force(o, 'MappingClass.order') | force(k(red), 'MappingClass.is_reducible')
            periodic = on_ != 'zero'
            want = {'is_periodic': periodic, 'is_pseudo_anosov': not periodic and not red}
            if on_ != 'positive': want['is_identity'] = on_ == 'one'
            what = f'of order {on_}' if periodic else 'of infinite order'
            for q, w in want.items():
                a = ask.answer('MappingClass', q, con)
                if a is None: rep.note(f'{q} is undecided for a class {what}'); continue
                rep.count('decided')
                if a == 'raises' or bool(a[0]) != w:
                    rep.finding('table', where(ask, q), f'{q} {"fails" if a == "raises" else "answers " + str(bool(a[0]))} for a {"reducible" if red else "not reducible"} class {what}', line(ask, q))
            a = ask.answer('MappingClass', 'nielsen_thurston_type', con)
            if a is None: rep.note(f'the type is undecided for a class {what}'); continue
            rep.count('decided')
            cat = 'periodic' if periodic else 'reducible' if red else 'pseudo-Anosov'
            if a == 'raises': rep.finding('table', where(ask, 'nielsen_thurston_type'), f'no type is given for a {cat} class', line(ask, 'nielsen_thurston_type'))
            else: types.setdefault(cat, []).append((a, what, red))
    q = 'nielsen_thurston_type'
    for cat, xs in types.items():
        if len(set(a for a, w, r in xs)) > 1: rep.finding('table', where(ask, q), f'{cat} classes get different types: ' + ', '.join(sorted(set(str(a[0]) for a, w, r in xs))), line(ask, q))
    cats = sorted(types)
    for i, a in enumerate(cats):
        for b in cats[:i]:
            both = set(x for x, w, r in types[a]) & set(x for x, w, r in types[b])
            if both: rep.finding('table', where(ask, q), f'{a} and {b} classes get the same type', line(ask, q))
    con = force(k(2), 'MappingClass.order')
def where(ask, name, cls='MappingClass'):
    e = ask.es[cls, name]
    return ask.repo.where(e.node)
def line(ask, name, cls='MappingClass'): return ask.es[cls, name].node.lineno
def judge(ask, rep, q, what, got, want, cls='MappingClass', rule='agree'):
    if got is None: rep.count('undecided'); rep.note(f'{q}: {what} is undecided'); return
    rep.count('decided')
    if got == want: return
    said = 'it is refused' if got == 'raises' else f'the answer is {got[0]}'
    rep.finding(rule, where(ask, q, cls), f'{what}: {said}', line(ask, q, cls))

# ------------------------------------------------------------------ order
def order(ask, rep):
    """The matrix of the action on homology permutes the basis cyclically with period M, the image of the reference
    lamination returns after N steps; the order is the least common multiple of the two."""
    from math import lcm
    for N, M in ((1, 1), (2, 1), (1, 2), (2, 2), (2, 3), (3, 1), (3, 3), (1, 3), (4, 2), (5, 5), (6, 2), (3, 2), (12, 3), (12, 1), (3, 4), (11, 1), (0, 1), (0, 2), (0, 3)):
        want = lcm(N, M) if N else 0
        def prep(I):
            I.hooks['obj_eq'] = lambda a, b: a.sym == b.sym if isinstance(a.sym, tuple) and isinstance(b.sym, tuple) and a.sym[0] == b.sym[0] else None
            I.contracts['Triangulation.max_order'] = lambda I, st, f, a, kw, n: k(12)
            def matrix(I, st, j, n): 
                rows = [I.alloc(st, n, Rec('nd', tuple(k(1 if (c + j) % M == i else 0) for c in range(M)), BOT, BOT, True, MEM, None, None, ('dtype', 'object')), ('hr', i, j)) for i in range(M)]
                return I.alloc(st, n, Rec('nd', tuple(rows), BOT, BOT, True, MEM, None, None, ('dtype', 'object')), ('hm', j))
            for q in ('Mapping.homology_matrix', 'Encoding.homology_matrix', 'MappingClass.homology_matrix'): I.contracts[q] = lambda I, st, f, a, kw, n: matrix(I, st, power(a[0]) % M if power(a[0]) is not None else 1, n)
            for q in ('MappingClass.is_in_torelli',): I.contracts[q] = lambda I, st, f, a, kw, n: k(power(a[0]) % M == 0) if power(a[0]) is not None else BOOL
            def power(v):
                x = next(iter(v)) if len(v) == 1 else None
                if isinstance(x, Obj) and isinstance(x.sym, tuple) and x.sym[0] == 'pow': return x.sym[1]
                return None
            mod = lambda j: j % want if want else j
            def times(v): return mod(v)
            def app(I, st, f, a, kw, n):
                if len(a) < 2 or isinstance(a[1], tuple) or len(a[1]) != 1 or power(a[0]) is None: return TOP
                x = next(iter(a[1]))
                t = a[2] if len(a) > 2 else kw.get('power', k(1))
                c = I.const_index(t)
                if c is None or not isinstance(x, Obj) or not isinstance(x.sym, tuple) or x.sym[0] != 'img': return TOP
                j = x.sym[1] + c * power(a[0])
                return one(x._replace(sym=('img', j % N if N else j)))
            for q in ('Encoding.__call__', 'MappingClass.__call__', 'Mapping.__call__'): I.contracts[q] = app
            def mul(I, st, f, a, kw, n):
                p = [power(v) for v in a[:2]]
                return objs('MappingClass', 'F', 'F', sym=('pow', mod(p[0] + p[1]))) if None not in p else None
            for q in ('Encoding.__mul__', 'MappingClass.__mul__', 'Mapping.__mul__'): I.contracts[q] = mul
            def pw(I, st, f, a, kw, n):
                c = I.const_index(a[1]) if len(a) > 1 else None
                return objs('MappingClass', 'F', 'F', sym=('pow', mod(c * power(a[0])))) if c is not None and power(a[0]) is not None else None
            I.contracts['MappingClass.__pow__'] = pw
            I.contracts['MappingClass.inverse'] = I.contracts['Mapping.inverse'] = I.contracts['Encoding.inverse'] = lambda I, st, f, a, kw, n: objs('MappingClass', 'F', 'F', sym=('pow', mod(-power(a[0])))) if power(a[0]) is not None else None
            for q_ in ('Encoding.self_image', 'Mapping.self_image', 'MappingClass.self_image'): I.contracts[q_] = lambda I, st, f, a, kw, n: objs('MultiArc', 'F', sym=('img', power(a[0]) % N if N else power(a[0]))) if power(a[0]) is not None else None
            I.contracts['Triangulation.id_encoding'] = lambda I, st, f, a, kw, n: objs('MappingClass', 'F', 'F', sym=('pow', 0))
            I.contracts['Triangulation.as_lamination'] = lambda I, st, f, a, kw, n: objs('MultiArc', 'F', sym=('img', 0))
        what = f'a class returning the lamination after {N} steps and homology after {M}' if N else f'a class of infinite order returning homology after {M} steps'
        for q, w in (('order', want), ('is_identity', want == 1), ('is_periodic', want > 0)):
            def prep_(I):
                I.contracts.pop('MappingClass.order', None)
                prep(I)
            r = ask.answer('MappingClass', q, {}, prep=prep_, gated=True, sym=('pow', 1))
            if r is None:
                # the number of moves of its word may matter
                for n in (1, 2, 5) if want == 1 else (1, 2):
                    def prep_n(I):
                        prep_(I)
                        I.word_length = n
                    r = ask.answer('MappingClass', q, {}, prep=prep_n, gated=True, sym=('pow', 1))
                    judge(ask, rep, q, f'{what} ({n} moves)', r, (w,), rule='order')
            else: judge(ask, rep, q, what, r, (w,), rule='order')

# ------------------------------------------------------------------ reducibility
def orbifold(I, st, node, j, genus, cones):
    """An orbifold of a genus with cone points (order or None for a puncture)."""
    chi = 2 - 2 * genus - sum(1 - (Q(0) if o is None else Q(1, o)) for o in cones)
    rec = lambda kind, items, sub, aux=None: I.alloc(st, node, Rec(kind, tuple(items), BOT, BOT, bool(items), MEM, None, None, aux), sub)
    cps = [rec('tuple', (k(o is None), k(o or 1), TOP, num('int', 1)), ('cp', j, i), ('nt', ('punctured', 'order', 'holonomy', 'preimages'))) for i, o in enumerate(cones)]
    return rec('tuple', (num('frac', t=T.const(chi)), num('int', 1), rec('list', cps, ('cps', j))), ('orb', j), ('nt', ('euler_characteristic', 'preimages', 'cone_points')))
TRIANGLES = [(0, (2, 3, 7)), (0, (None, 2, 3)), (0, (None, None, None)), (0, (4, 4, None)), (0, (5, 5, 5))]
OTHERS = [(0, (2, 2, 2, 3)), (0, (None,) * 4), (1, (2,)), (1, (None,)), (1, (None, None, None)), (1, (2, 2, 3)), (2, (None,)), (0, (None,) * 5), (2, (3, 3, 3)), (0, (2, 2, None, None, 3))]
def reducible(ask, rep):
    def signature(*os):
        def c(I, st, f, a, kw, node):
            return I.alloc(st, node, Rec('list', tuple(orbifold(I, st, node, j, *o) for j, o in enumerate(os)), BOT, BOT, True, MEM), 'sig')
        return {'FiniteSubgroup.quotient_orbifold_signature': c}
    name = lambda o: f'genus {o[0]} with cone points ' + ', '.join('puncture' if x is None else str(x) for x in o[1])
    cases = [((o,), False) for o in TRIANGLES] + [((o,), True) for o in OTHERS]
    cases += [((TRIANGLES[0], TRIANGLES[1]), False), ((TRIANGLES[0], OTHERS[0]), True), ((OTHERS[2], TRIANGLES[1]), True), ((TRIANGLES[2], TRIANGLES[0], OTHERS[4]), True), ((TRIANGLES[0], OTHERS[4], TRIANGLES[2]), True), ((OTHERS[0], OTHERS[3]), True)]
    for os, want in cases:
        r = ask.answer('MappingClass', 'is_reducible', PERIODIC | force(k(2), 'MappingClass.order') | signature(*os), gated=True)
        judge(ask, rep, 'is_reducible', 'a periodic class whose quotient has ' + ' and '.join('genus ' + name(o)[6:] for o in os), r, (want,), rule='reducible')
    huge = k(10 ** 9)
    def curves(near):
        def dist(I, st, f, a, kw, n):
            s = [x.sym for v in a[1:] for x in v if isinstance(x, Obj)]
            return k(0) if any(isinstance(x, tuple) and x[0] == near or x == near for x in s) else huge
        con = {'CurveGraph.distance': dist, 'Triangulation.edge_curve': lambda I, st, f, a, kw, n: objs('Curve', 'F', sym='base'), 'Triangulation.edge_arc': lambda I, st, f, a, kw, n: objs('Arc', 'F', sym='basearc')}
        con['CurveGraph.quasiconvex'] = lambda I, st, f, a, kw, n: I.alloc(st, n, Rec('set', tuple(objs('Curve', 'F', sym=s) for s in ('first', 'middle', 'last')), BOT, BOT, True, MEM), 'qc')
        app = lambda I, st, f, a, kw, n: objs('Curve', 'F', sym=('image', next(iter(a[1])).sym)) if len(a) > 1 and not isinstance(a[1], tuple) and len(a[1]) == 1 and isinstance(next(iter(a[1])), Obj) else TOP
        for q in ('Encoding.__call__', 'MappingClass.__call__', 'Mapping.__call__'): con[q] = app
        return con
    def consts(I): pass
    F = dict(FIELDS, CurveGraph=dict(FIELDS.get('CurveGraph', {}), BOUNDED_GEODESIC_IMAGE=lambda *a: k(100), QUASICONVEXITY=lambda *a: k(10), HYPERBOLICITY=lambda *a: k(17), R=lambda *a: k(50), M=lambda *a: num('int', 1), M2=lambda *a: num('int', 1), D=lambda *a: num('int', 1)))
    for near, what in (('base', 'the first curve hardly moves'), ('first', 'the first curve of the quasiconvex set hardly moves'), ('middle', 'one curve of the quasiconvex set hardly moves'), ('last', 'the last curve of the quasiconvex set hardly moves'), (None, 'every curve moves far')):
        r = ask.answer('MappingClass', 'is_reducible', APERIODIC | curves(near), fields=F, gated=True)
        judge(ask, rep, 'is_reducible', f'a class of infinite order for which {what}', r, (near is not None,), rule='reducible')

# ------------------------------------------------------------------ the cyclic subgroup
def subgroup(ask, rep):
    def prep(I):
        def pw(I, st, f, a, kw, n):
            c = I.const_index(a[1]) if len(a) > 1 and not isinstance(a[1], tuple) else None
            x = next(iter(a[0]))
            return objs('MappingClass', 'F', 'F', sym=('pow', c * x.sym[1])) if c is not None and isinstance(x.sym, tuple) and x.sym[0] == 'pow' else None
        I.contracts['MappingClass.__pow__'] = pw
        def mul(I, st, f, a, kw, n):
            xs = [next(iter(v)) for v in a[:2]]
            return objs('MappingClass', 'F', 'F', sym=('pow', sum(x.sym[1] for x in xs))) if all(isinstance(x, Obj) and isinstance(x.sym, tuple) and x.sym[0] == 'pow' for x in xs) else None
        for q in ('Encoding.__mul__', 'MappingClass.__mul__', 'Mapping.__mul__'): I.contracts[q] = mul
        I.contracts['Triangulation.id_encoding'] = lambda I, st, f, a, kw, n: objs('MappingClass', 'F', 'F', sym=('pow', 0))
        I.made = []
        def new(I, st, cls, args, kw, node):
            m = args[0] if args else kw.get('mapping_classes', TOP)
            g = args[1] if len(args) > 1 else kw.get('generators', NONE)
            I.made.append((st.copy(), m, g))
            return objs('FiniteSubgroup', 'F', org='fresh', sym=('made', len(I.made) - 1))
        I.contracts['new:FiniteSubgroup'] = new
    def parts(st, v):
        """The constant items of a container."""
        x = next(iter(v)) if len(v) == 1 else None
        if not isinstance(x, Ref) or st.heap[x.oid].items is None: return None
        return st.heap[x.oid].items
    q = 'subgroup'
    for n in (1, 2, 3, 5, 12):
        r = ask.run('MappingClass', q, force(k(n), 'MappingClass.order') | force(TRUE, 'MappingClass.is_periodic') | force(k(n == 1), 'MappingClass.is_identity'), prep=prep, sym=('pow', 1))
        if r is None: return
        I, rets, sink, e = r
        what = f'the subgroup of a class of order {n}'
        if not rets:
            judge(ask, rep, q, what, 'raises', None, rule='subgroup'); continue
        for s, w in rets:
            x = next(iter(w)) if len(w) == 1 else None
            if not isinstance(x, Obj) or not isinstance(x.sym, tuple) or x.sym[0] != 'made': rep.count('undecided'); rep.note(what + ' is undecided'); continue
            st, m, g = I.made[x.sym[1]]
            its = parts(st, m)
            if its is None or not all(isinstance(p, tuple) and len(p) == 2 for p in its): rep.count('undecided'); rep.note(what + ': its elements are undecided'); continue
            keys, vals = [], []
            for a, b in its:
                keys.append(value(a)); y = next(iter(b)) if len(b) == 1 else None
                vals.append(y.sym[1] if isinstance(y, Obj) and isinstance(y.sym, tuple) and y.sym[0] == 'pow' else None)
            if None in vals or None in keys: rep.count('undecided'); rep.note(what + ': the powers are undecided'); continue
            rep.count('decided')
            if sorted(v % n for v in vals) != list(range(n)): rep.finding('subgroup', where(ask, q), f'{what} lists the powers {sorted(vals)}', line(ask, q)); continue
            names = {kk[0]: v % n for kk, v in zip(keys, vals)}
            if all(isinstance(kk[0], int) for kk in keys) and any(kk % n != v for kk, v in names.items()): rep.finding('subgroup', where(ask, q), f'{what} names the powers wrongly: {names}', line(ask, q))
            gs = parts(st, g)
            gs = [value(i) for i in gs] if gs is not None else None
            if gs is None or None in gs: continue
            from math import gcd
            exps = [names[i[0]] for i in gs if i[0] in names]
            if len(exps) != len(gs): rep.finding('subgroup', where(ask, q), f'{what} names a generator that is not an element', line(ask, q)); continue
            d = n
            for x_ in exps: d = gcd(d, x_)
            if d != 1: rep.finding('subgroup', where(ask, q), f'{what} is not generated by its generators', line(ask, q))
    r = ask.refused('MappingClass', q, APERIODIC, prep=prep, sym=('pow', 1))
    judge(ask, rep, q, 'the subgroup of a class of infinite order', r, 'raises', rule='subgroup')
    for nm, o in (('the identity', 1), ('order two', 2), ('order seven', 7)):
        con = force(k(o), 'MappingClass.order') | force(TRUE, 'MappingClass.is_periodic') | force(k(o == 1), 'MappingClass.is_identity') | force(FALSE, 'MappingClass.is_pseudo_anosov')
        for red in (True, False):
            r = ask.refused('MappingClass', 'projective_invariant_lamination', con | force(k(red), 'MappingClass.is_reducible'), over={'curves': E.const(NONE)})
            judge(ask, rep, 'projective_invariant_lamination', f'the invariant lamination of a periodic class ({nm})', r, 'raises', rule='subgroup')

# ------------------------------------------------------------------ conjugacy
def conjugacy(ask, rep):
    """Two classes, and their cyclic subgroups, are given their invariants separately. The signature of the quotient is a
    total invariant: it differs whenever anything else does."""
    def per(values):
        def c(I, st, f, a, kw, n):
            x = next(iter(a[0])) if len(a[0]) == 1 else None
            return values.get(x.sym) if isinstance(x, Obj) else None
        return c
    inv = lambda what, j: one(Obj('Permutation', (), 'shared', ('perm', what, j)))
    def contracts(surface=(1, 1), perm=(1, 1), orders=(3, 3), sig=(1, 1)):
        S = lambda j: k('surface' + str(j))
        sigs = {j: k(f'signature {surface[j]} {perm[j]} {orders[j]} {sig[j]}') for j in (0, 1)}
        con = {'MappingClass.order': per({'a': k(orders[0]), 'b': k(orders[1])}), 'MappingClass.vertex_permutation': per({'a': inv('v', perm[0]), 'b': inv('v', perm[1])})}
        con['MappingClass.subgroup'] = per({'a': objs('FiniteSubgroup', 'F', sym='sa'), 'b': objs('FiniteSubgroup', 'H', sym='sb')})
        con['Triangulation.surface'] = per({'Ta': S(surface[0]), 'Tb': S(surface[1])})
        con['FiniteSubgroup.quotient_orbifold_signature'] = per({'sa': sigs[0], 'sb': sigs[1]})
        con['FiniteSubgroup.__len__'] = per({'sa': k(orders[0]), 'sb': k(orders[1])})
        def pc(I, st, f, a, kw, n):
            xs = [next(iter(v)) for v in a[:2]]
            return k(xs[0].sym == xs[1].sym) if all(isinstance(x, Obj) and isinstance(x.sym, tuple) for x in xs) else None
        con['Permutation.is_conjugate_to'] = pc
        con['Permutation.cycle_lengths'] = lambda I, st, f, a, kw, n: k(str(next(iter(a[0])).sym))
        return con
    tri = lambda I, st, o, node: objs('Triangulation', o.fr[0], org='shared', sym={'a': 'Ta', 'b': 'Tb', 'sa': 'Ta', 'sb': 'Tb'}.get(o.sym))
    F = dict(FIELDS)
    for c in ('MappingClass', 'Encoding', 'Mapping'): F[c] = dict(FIELDS.get(c, {}), source_triangulation=tri, target_triangulation=tri)
    F['FiniteSubgroup'] = dict(FIELDS.get('FiniteSubgroup', {}), triangulation=tri)
    q = 'is_conjugate_to'
    CASES = [('on different surfaces', dict(surface=(1, 2))), ('permuting the vertices differently', dict(perm=(1, 2))), ('with different quotients', dict(sig=(1, 2))), ('of orders 2 and 3', dict(orders=(2, 3))), ('of orders 3 and 2', dict(orders=(3, 2))), ('of orders 1 and 2', dict(orders=(1, 2))), ('of orders 6 and 3', dict(orders=(6, 3)))]
    MIXED = [('only the first of which is periodic', dict(orders=(3, 0))), ('only the second of which is periodic', dict(orders=(0, 3)))]
    for cls, me, other, over in (('MappingClass', 'a', 'b', lambda c, n: one(Obj('MappingClass', ('H', 'H'), E.ARG, 'b'))), ('FiniteSubgroup', 'sa', 'sb', lambda c, n: one(Obj('FiniteSubgroup', ('H',), E.ARG, 'sb')))):
        args = dict(over={'other': over}, fields=F, sym=me, gated=True, prep=lambda I: I.contracts.pop('FiniteSubgroup.is_conjugate_to', None) if cls == 'MappingClass' else None)
        names = 'classes' if cls == 'MappingClass' else 'subgroups'
        for what, kw in CASES + (MIXED if cls == 'MappingClass' else []): judge(ask, rep, q, f'conjugacy of {names} {what}', ask.answer(cls, q, contracts(**kw), **args), (False,), cls=cls, rule='conjugate')
        judge(ask, rep, q, f'conjugacy of {names} with the same invariants', ask.answer(cls, q, contracts(), **args), (True,), cls=cls, rule='conjugate')
        if cls != 'MappingClass': continue
        for what, kw in CASES[:2]:
            a = ask.answer(cls, q, contracts(orders=(0, 0), **kw), **args)
            if a != 'raises': judge(ask, rep, q, f'conjugacy of classes of infinite order {what}', a, (False,), rule='conjugate')
        judge(ask, rep, q, 'conjugacy of two classes of infinite order', ask.refused(cls, q, contracts(orders=(0, 0)), allow=((True,),), **args), 'raises', rule='conjugate')

def multitwist(ask, rep):
    q = 'is_multitwist'
    def refuse(I, st, f, a, kw, n): I.raise_(st, 'ValueError', n)
    judge(ask, rep, q, 'a class that is not a twist', ask.answer('MappingClass', q, {'MappingClass.extract_twisting_multicurve': refuse}), (False,), rule='agree')
    judge(ask, rep, q, 'a class that is a twist', ask.answer('MappingClass', q, {'MappingClass.extract_twisting_multicurve': lambda I, st, f, a, kw, n: objs('MultiCurve', 'F')}), (True,), rule='agree')

# ------------------------------------------------------------------ permutations
def permutations(ask, rep):
    """Cycle types of all permutations on few elements, by constant propagation."""
    from itertools import permutations as perms
    def cycles(p):
        seen, out = set(), []
        for i in range(len(p)):
            n = 0
            while i not in seen: seen.add(i); i = p[i]; n += 1
            if n: out.append(n)
        return tuple(sorted(out))
    from math import lcm
    if 'Permutation' not in ask.repo.classes: return
    I = Model(ask.repo, gated=True, budget=20000000)
    I.unroll_forever = True
    I.KEYS = dict(I.KEYS, Permutation=('perm',))
    for q in [q for q in I.contracts if q.startswith('Permutation.') or q == 'new:Permutation']: I.contracts.pop(q)
    st = State()
    def make(p):
        I.epoch += 1
        l = I.lst(st, ('perm', p), [k(i) for i in p])
        I.sinks.append([])
        try: return I.call(one(Cls('Permutation')), [l], {}, st, I.NODE)
        except Dead: return None
        finally: I.sinks.pop()
    ps = [p for n in (1, 2, 3) for p in perms(range(n))] + [(1, 0, 3, 2), (1, 0, 2, 3), (1, 2, 0, 3), (1, 2, 3, 0), (0, 1, 2, 3), (3, 2, 1, 0), (0, 2, 3, 1), (2, 3, 0, 1), (1, 3, 0, 2), (1, 0, 2, 3, 4), (1, 0, 3, 2, 4), (0, 2, 1, 4, 3), (1, 2, 0, 4, 3), (1, 0, 3, 4, 5, 2), (1, 2, 0, 4, 5, 3), (1, 2, 0, 3, 4, 5)]
    vs = {p: make(p) for p in ps}
    line = lambda q: ask.repo.method('Permutation', q).lineno
    for p in ps:
        if vs[p] is None: rep.count('undecided'); continue
        r = value(I.invoke(st, vs[p], 'order') or BOT)
        if r is None: rep.count('undecided'); rep.note(f'the order of the permutation {p} is undecided')
        else:
            rep.count('decided'); rep.count('permutations')
            if r[0] != lcm(*cycles(p)): rep.finding('permutation', ask.repo.where(ask.repo.method('Permutation', 'order')), f'the order of {p} is {r[0]}', line('order'))
    for p in ps:
        for q in ps:
            if vs[p] is None or vs[q] is None or len(p) + len(q) > 7 and (p > q or len(p) != len(q)): continue
            r = value(I.invoke(st, vs[p], 'is_conjugate_to', [vs[q]]) or BOT)
            if r is None: rep.count('undecided'); rep.note(f'whether the permutations {p} and {q} are conjugate is undecided'); continue
            rep.count('decided')
            if bool(r[0]) != (cycles(p) == cycles(q)): rep.finding('permutation', ask.repo.where(ask.repo.method('Permutation', 'is_conjugate_to')), f'{p} and {q} are reported as {"" if r[0] else "not "}conjugate', line('is_conjugate_to'))

# ------------------------------------------------------------------ orbit sizes
def orbit_sizes(ask, rep):
    """What is recorded as the size of the orbit of a component is the size of its class."""
    fn = ask.repo.method('FiniteSubgroup', 'quotient_orbifold_signature')
    ufs = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split('.')[-1] == 'UnionFind':
            ufs |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    def inner(name, gens):
        """Names bound by going over (the members of) a class bound to name."""
        return {t.id for tgt, it in gens if isinstance(it, ast.Name) and it.id == name for t in ast.walk(tgt) if isinstance(t, ast.Name)}
    def judge_(cls, gens, node):
        members = inner(cls, gens)
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in members:
                rep.finding('orbit', ask.repo.where(fn), 'the size of one member of a class is recorded instead of the size of the class', n.lineno)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ufs:
                rep.finding('orbit', ask.repo.where(fn), 'the number of classes is recorded instead of the size of the class', n.lineno)
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id in ufs and isinstance(n.target, ast.Name):
            gens = [(m.target, m.iter) for b in n.body for m in ast.walk(b) if isinstance(m, (ast.For, ast.comprehension))]
            rep.count('orbits'); judge_(n.target.id, gens, n)
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)):
            for g in n.generators:
                if isinstance(g.iter, ast.Name) and g.iter.id in ufs and isinstance(g.target, ast.Name):
                    rep.count('orbits'); judge_(g.target.id, [(m.target, m.iter) for m in n.generators], n)

def check(repo, rep):
    rep.rule('Each question about a mapping class is interpreted abstractly with the answers it is defined from (order, reducibility, orbifold signature, distances, homology matrix, images, invariants of the other class) given as constants, for every combination of answers. Rule (table, order, reducible, subgroup, conjugate, agree, permutation): whenever the analysis decides the answer it is the one these data force, different types have different names, and requests that need or exclude a periodic class end in an exception. Rule (orbit): the size recorded for an orbit of components is the size of its class.')
    ask = Ask(repo, rep)
    from report import part
    for f in (table, order, reducible, subgroup, conjugacy, multitwist, permutations, orbit_sizes): part(rep, f, ask, rep)
    rep.need('decided', 100)
