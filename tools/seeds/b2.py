TW=K+'twist.py'; FI=K+'finite.py'; ST=K+'structures.py'; LO='curver/load.py'; UT=K+'utilities.py'; CR=K+'create.py'; CG=K+'curvegraph.py'; PE=K+'permutation.py'; HO=K+'homology.py'
seed('C05-multiflip-flip-mapping', 'C05', MV, "        return self.source_triangulation.encode([edge.label for edge in self.edges])\n", "        return self.source_triangulation.encode([edge.index for edge in self.edges])\n", '''
import curver
T = curver.load(2, 1).triangulation
for e in T.edges:
    if not T.is_flippable(e): continue
    h = T.encode_multiflip([e])
    f = h.flip_mapping()
    assert f.target_triangulation == h.target_triangulation, e
    assert f == h, e
''', 'writing a simultaneous flip that holds a negatively oriented edge as single flips', 'the flips drop the orientation of the edges, and so end on another triangulation')
seed('C07-encoding-hash', 'C07', EN, "        return hash(tuple(entry for arc in self.source_triangulation.edge_arcs() for entry in self(arc.boundary())))\n", "        return hash((len(self), tuple(entry for arc in self.source_triangulation.edge_arcs() for entry in self(arc.boundary()))))\n", '''
import curver
S = curver.load(1, 2)
c = S.curves['a_0']
k = c.crush()
one = k.target_triangulation.id_encoding()
e = next(e for e in k.target_triangulation.edges if k.target_triangulation.is_flippable(e))
f = k.target_triangulation.encode_flip(e)
same = f.inverse() * (f * k)
assert same == k and len(same) != len(k)
assert hash(same) == hash(k)
assert len({k, same}) == 1
''', 'two equal encodings that are not mappings, written with different numbers of moves', 'equal encodings have different hashes')
seed('C08-multiflip-package', 'C08', MV, "        return set(edge.label for edge in self.edges)\n", "        return set(edge.index for edge in self.edges)\n", '''
import curver, pickle
T = curver.load(2, 1).triangulation
for e in T.edges:
    if not T.is_flippable(e): continue
    h = T.encode_multiflip([e])
    g = pickle.loads(pickle.dumps(h))
    assert g.target_triangulation == h.target_triangulation, e
    assert g == h, e
''', 'pickling a simultaneous flip that holds a negatively oriented edge', 'the pickled move flips the edge with the other orientation, and so loads as another map')
seed('C09-from-generators-set', 'C09', FI, "            for letter in sorted(generators):\n                generator = generators[letter]\n", "            for letter in set(generators):\n                generator = generators[letter]\n", '''
import os, subprocess, sys
code = """
import curver
S = curver.load(0, 6)
T = S.triangulation
names = ['p', 'q', 'r', 's']
isoms = [i.encode() for i in T.self_isometries()]
G = dict(zip(names, isoms))
if len(isoms) == 1: raise SystemExit('no symmetry')
H = curver.kernel.FiniteSubgroup.from_generators(G)
print(list(H))
"""
code = """
import curver
T = curver.create_triangulation([(0, 1, 2), (~2, ~0, ~1)])
G = dict((n, i.encode()) for n, i in zip('pqrstu', sorted(T.self_isometries(), key=str)) if not i.is_identity())
G = {k: G[k] for k in G}
H = curver.kernel.FiniteSubgroup.from_generators(G)
a = [sorted(v for v in G)]
two = dict((k, v) for k, v in G.items() if v.order() in (2, 3))
H = curver.kernel.FiniteSubgroup.from_generators(two)
print(list(H), sorted(H))
"""
outs = set()
for seed in range(12):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    outs.add(subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, check=True).stdout)
assert len(outs) == 1, outs
''', 'a subgroup built from several generators, in interpreters with different string hashing', 'the names given to the elements of the subgroup depend on the order of a set of strings')
seed('C10-crush-no-promote', 'C10', K+'crush.py', "        return self.target_triangulation(geometric)  # Have to promote.\n", "        return lamination.__class__(self.target_triangulation, geometric)  # Avoids promote.\n", '''
import curver
S = curver.load(2, 1)
for c in S.curves.values():
    k = c.crush()
    for d in S.curves.values():
        image = k(d)
        assert type(image) is type(k.target_triangulation(list(image))), (type(image), list(image))
''', 'crushing along a curve that meets the lamination, so that the image has another number of components', 'images under crushes keep the class of the lamination they came from')
seed('C11-pa-periodic', 'C11', EN, "        return not self.is_periodic() and not self.is_reducible()\n", "        return not self.is_reducible()\n", '''
import curver
S = curver.load(1, 1)
for w in ('a_0.b_0', 'a_0.b_0.a_0', '(a_0.b_0)^2', '(a_0.b_0)^3', ''):
    h = S(w)
    assert h.is_pseudo_anosov() == (h.nielsen_thurston_type() == 'Pseudo-Anosov'), w
    assert h.is_periodic() + h.is_pseudo_anosov() <= 1, w
''', 'a periodic mapping class that preserves no multicurve', 'irreducible periodic mapping classes are also said to be pseudo-Anosov')
seed('C12-flip-homology-sign', 'C12', MV, "            algebraic[b.index] -= b.sign() * homology_class(e)\n            algebraic[e.index] = 0\n", "            algebraic[b.index] -= b.sign() * homology_class.algebraic[e.index]\n            algebraic[e.index] = 0\n", '''
import curver
for S in (curver.load(2, 1), curver.load(1, 2)):
    T = S.triangulation
    for e in T.edges:
        if not T.is_flippable(e): continue
        h, g = T.encode_multiflip([e]), T.encode_flip(e)
        assert h.target_triangulation == g.target_triangulation
        for f in T.edges:
            c = T.edge_homology(f)
            assert h(c) == g(c), (e, f)
''', 'a simultaneous flip of a negatively oriented edge applied to a homology class', 'the weight of the flipped edge is moved with the wrong sign onto one of its neighbours')
seed('C05-multiflip-inverse', 'C05', CR, "target_triangulation, source_triangulation, [~edge for edge in edges])", "target_triangulation, source_triangulation, edges)", '''
import curver
T = curver.load(2, 1).triangulation
for e in T.edges:
    if not T.is_flippable(e): continue
    h = T.encode_multiflip([e]).inverse()
    f = h.flip_mapping()
    assert f.target_triangulation == h.target_triangulation, e
    assert f == h, e
''', 'expanding the inverse of a simultaneous flip into single flips', 'the inverse flips its edges with the orientation they had before, and so its expansion ends on another triangulation')
seed('C06-inverse-cache', 'C06', EN, "        return self.__class__([item.inverse() for item in reversed(self.sequence)])  # Data structure issue.\n", "        inverse = self.__class__([item.inverse() for item in reversed(self.sequence)])  # Data structure issue.\n        # These only depend on self up to inversion.\n        inverse._cache = dict((key, value) for key, value in getattr(self, '_cache', dict()).items() if key[0] in ('order', 'extract_twisting_multicurve'))\n        return inverse\n", '''
import curver
S = curver.load(1, 2)
h = S('a_0')
fresh = h.inverse().is_multitwist()
assert h.is_multitwist()
assert h.inverse().is_multitwist() == fresh
''', 'asking whether a map is a multitwist, and then the same of its inverse', 'the inverse answers with what was remembered for the map itself')
seed('C07-homology-triangulation', 'C07', HO, "        return self.triangulation == other.triangulation and self.canonical()", "        return self.zeta == other.zeta and self.canonical()", '''
import curver
T = curver.load(2, 1).triangulation
e = next(e for e in T.edges if T.is_flippable(e))
U = T.encode_flip(e).target_triangulation
for f in T.edges:
    assert T.edge_homology(f) != U.edge_homology(f)
''', 'comparing homology classes of two triangulations with the same number of edges', 'classes on different triangulations are compared by their coordinates alone')
seed('C10-zero-multiple', 'C10', L, "        if other == 0:\n            new_class = IntegralLamination\n        elif other == 1:\n            new_class = self.__class__\n", "        if other <= 1:\n            new_class = self.__class__\n", '''
import curver
S = curver.load(1, 2)
m = 0 * S.curves['a_0']
assert not isinstance(m, curver.kernel.Curve)
assert m.num_components() == 0
''', 'multiplying a curve by zero', 'the empty lamination claims to be a single curve')
seed('C12-multiflip-nbc', 'C12', MV, "            elif ei >= 0 and bi0 >= ai0 + ei and ci0 >= di0 + ei:  # CASE: N(bc)\n                geometric[edge.index] = bi0 + ci0 - 2*ei\n", "            elif ei >= 0 and bi0 >= ai0 + ei and ci0 >= di0 + ei:  # CASE: N(bc)\n                geometric[edge.index] = bi0 + ci0 - ei\n", '''
import curver, itertools
T = curver.create_triangulation([(0, 1, 2), (~0, 3, 4), (~1, 5, 6), (~2, ~3, 7), (~4, ~5, 8), (~6, ~7, ~8)])
for e in T.positive_edges:
    if not T.is_flippable(e): continue
    h, g = T.encode_multiflip([e]), T.encode_flip(e)
    a, b, c, d, _ = [x.index for x in T.square(e)]
    if len({a, b, c, d, e.index}) < 5: continue
    for w in itertools.product(range(0, 4), repeat=4):
        for x in range(-1, 4):
            v = [2] * T.zeta
            for i, y in zip((a, b, c, d, e.index), w + (x,)): v[i] = y
            m = curver.kernel.Lamination(T, v)
            try: one = list(g[0].apply_lamination(m))
            except ValueError: continue
            assert one == list(h[0].apply_lamination(m)), (e, v)
''', 'a simultaneous flip of an edge whose square has weights exactly on the boundary of a case', 'the simultaneous flip differs from the single flip there')
seed('C12-multiflip-conditions', 'C12', MV, "                conditions.append(V(bi) + V(di) - V(ai) - V(ci))\n", "                conditions = [V(bi) + V(di) - V(ai) - V(ci)]\n", '''
import curver, itertools
S = curver.load(0, 6)
T = S.triangulation
curves = list(dict.fromkeys(T.edge_curves()))
curves = curves + [h(c) for c in curves for h in (S['s_1'], S['s_2'], S['s_3'])]
for pair in itertools.combinations(T.positive_edges, 2):
    try: h = T.encode_multiflip(pair)
    except AssertionError: continue
    for c in curves:
        F = h.pl_action(c)
        for d in curves:
            if list(d) in F:
                assert F(list(d)) == list(h(d)), (pair, list(c), list(d))
''', 'the matrix form of a simultaneous flip of two edges, used away from the multicurve it was computed at', 'the region of validity forgets the conditions of the edges before the last')
seed('C14-d-curves-large-genus', 'C14', LO, "            curves[f'd_{i}'] = T([2] + [2] * (5*i) + [1, 1, 1] + [0] * (5*g + 3*n - 7 - 5*i) + [2] * (i-1) + [0] * (1 + g - 3 - i))\n        curves[f'd_{g-1}'] = T([2] * (5*g - 4) + [1, 1, 1, 0] + [2]*(g-3))\n", "            curves[f'd_{i}'] = T([2] + [2] * (5*i) + [1, 1, 1] + [0] * (5*g + 3*n - 7 - 5*i) + [2] * min(i-1, 3) + [0] * (g - 3 - min(i-1, 3)))\n        curves[f'd_{g-1}'] = T([2] * (5*g - 4) + [1, 1, 1, 0] + [2]*(g-3))\n", '''
import curver
S = curver.load(7, 1)
for name, c in S.curves.items():
    assert type(c) is curver.kernel.Curve, (name, list(c))
''', 'a surface of genus at least seven with one puncture', 'the curve d_5 is not a curve')
seed('C14-sphere-braid-digits', 'C14', LO, "REGEX_IS_SPHERE_BRAID = re.compile(r'SB_(?P<num_strands>\\d+)$')", "REGEX_IS_SPHERE_BRAID = re.compile(r'SB_(?P<num_strands>\\d)$')", '''
import curver
for n in (3, 4, 9, 10, 12):
    assert curver.load(f'SB_{n}').triangulation.zeta == 3*n - 6
''', 'loading the braid group of a sphere with at least ten strands by name', 'the name is not known')
seed('C16-sum-repeated', 'C16', ST, "        if len(slps) == 1:\n            return slps[0]\n", "        slps = list(dict.fromkeys(slps))  # Parts that are repeated can be shared.\n        if len(slps) == 1:\n            return slps[0]\n", '''
import curver
SLP = curver.kernel.SLP
a, b = SLP(['a', 'b']), SLP(['c'])
assert list(SLP.sum([a, b])) == ['a', 'b', 'c']
assert list(SLP.sum([a, b, a])) == ['a', 'b', 'c', 'a', 'b']
assert list(SLP.sum([a, a])) == ['a', 'b'] * 2
''', 'summing a list in which the same compressed word object occurs twice', 'repeated parts of the sum are dropped')
seed('C16-mul-32bit', 'C16', ST, "        binary = [bool(int(x)) for x in bin(other)[2:]]\n", "        binary = [bool((other >> i) & 1) for i in reversed(range(min(int(other).bit_length(), 32)))]\n", '''
import curver
a = curver.kernel.SLP(['a', 'b'])
for n in (1, 2, 3, 5, 8, 2**20 + 7, 2**31, 2**32 + 5, 3 * 2**40 + 1):
    assert len(a * n) == 2 * n, n
''', 'repeating a compressed word more than 2**32 times', 'the highest bits of the exponent are dropped')
seed('C17-boundary-dict', 'C17', L, "        return self.triangulation.disjoint_sum([self.multiarc().boundary(), self.multicurve().boundary()])\n", "        return self.triangulation.disjoint_sum({self.multiarc().boundary(): 1, self.multicurve().boundary(): 1})\n", '''
import curver
T = curver.load(1, 1).triangulation
for e in T.positive_edges:
    a, c = T.edge_arc(e), T.edge_curve(e)
    if c.is_peripheral() or a.intersection(c): c = next(x for x in T.edge_curves() if not x.is_peripheral() and a.intersection(x) == 0)
    m = T.disjoint_sum([a, c])
    whole = m.boundary()
    assert list(whole) == [x + y for x, y in zip(a.boundary(), c.boundary())], (e, list(whole))
''', 'a lamination whose arcs and whose curves have the same boundary', 'the boundary they share is counted once instead of twice')
seed('C15-multiflip-mixed', 'C15', T, "        edges = set(curver.kernel.Edge(edge) if isinstance(edge, curver.IntegerType) else edge for edge in edges)  # If given any integers.\n        \n        support", "        edges = set(edges)\n        if all(isinstance(edge, curver.IntegerType) for edge in edges): edges = set(curver.kernel.Edge(edge) for edge in edges)  # If given integers.\n        \n        support", '''
import curver, itertools
T = curver.load(1, 4).triangulation
done = 0
for e, f in itertools.permutations(T.edges, 2):
    if len({T.triangle_lookup[x] for x in (e, ~e, f, ~f)}) != 4: continue
    want = T.encode_multiflip([e, f])
    for edges in ([e.label, f.label], [e.label, f], [e, f.label]):
        assert T.encode_multiflip(edges) == want, edges
    done += 1
    if done == 8: break
assert done
''', 'a simultaneous flip given by a list that holds both edges and integers', 'a list holding both forms is refused with a KeyError')
seed('C15-edge-curve-side', 'C15', T, "        if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.\n        \n        if self.vertex_lookup[edge] == self.vertex_lookup[~edge]:\n", "        if isinstance(edge, curver.IntegerType): edge = self.positive_edges[norm(edge)]  # If given an integer instead.\n        \n        if self.vertex_lookup[edge] == self.vertex_lookup[~edge]:\n", '''
import curver
for g, n in [(1, 1), (0, 4), (2, 1), (1, 3), (3, 2)]:
    T = curver.load(g, n).triangulation
    for e in T.edges:
        assert T.edge_curve(e.label) == T.edge_curve(e), (g, n, e)
''', 'asking for the curve of an edge that connects a vertex to itself by a negative label', 'the integer form gives the curve on the other side of the edge')
