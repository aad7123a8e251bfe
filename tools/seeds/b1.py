L=K+'lamination.py'; T=K+'triangulation.py'; G=K+'mappingclassgroup.py'; CU=K+'curve.py'; EN=K+'encoding.py'; A=K+'arc.py'; MV=K+'moves.py'
seed('C01-multiflip-homology', 'C01', MV, "        algebraic = list(homology_class)\n        \n        for edge in self.edges:\n", "        algebraic = homology_class.algebraic\n        \n        for edge in self.edges:\n", '''
import curver
S = curver.load(2, 1)
T = S.triangulation
for e in T.edges:
    if not T.is_flippable(e): continue
    h = T.encode_multiflip([e])
    for f in T.edges:
        c = T.edge_homology(f) + T.edge_homology(0)
        before = list(c)
        h(c)
        assert list(c) == before, (e, f, before, list(c))
''', 'a homology class mapped through a simultaneous flip, on an edge whose weight is non-zero, and used again afterwards', 'the homology class given to a multi-flip is overwritten with its image')
seed('C01-topological-type-pop', 'C01', L, "                links.append((vertex_node_map[vertex], vertex_node_map[vertex2], short_components.get(curve, 0)))\n                del half_links[curve]", "                links.append((vertex_node_map[vertex], vertex_node_map[vertex2], short_components.pop(curve, 0)))\n                del half_links[curve]", '''
import curver
S = curver.load(2, 1)
c = S.curves['a_0'] + S.curves['a_0'] if 'a_0' in S.curves else 2 * next(iter(S.curves.values()))
m = S.triangulation.disjoint_sum({next(iter(S.curves.values())): 2})
first = m.topological_type()
short, _ = m.shorten()
assert m.topological_type() == first
assert sum(short.components().values()) == 2, short.components()
''', 'asking the topological type twice of one lamination object (or its components after its type)', 'the remembered components of the shortened lamination lose the curves that were crushed')
seed('C02-extract-twist-float', 'C02', EN, "(component, multiplicity // lamination.intersection(component)) for", "(component, int(multiplicity / lamination.intersection(component))) for", '''
import curver
S = curver.load(1, 2)
c = S.curves['a_0']
n = 10**30 + 7
h = c.encode_twist(power=n)
assert h.extract_twisting_multicurve() == n * c
''', 'a twist to a power beyond 2**53', 'the multiplicity of the twisting curve is computed with a floating-point division')
seed('C02-crush-matrix-dtype', 'C02', CU, "for i in range(self.zeta)] for j in range(self.zeta)], dtype=object)", "for i in range(self.zeta)] for j in range(self.zeta)])", '''
import curver
S = curver.load(2, 1)
for c in S.curves.values():
    lift = c.crush().inverse()
    for v in lift.source_triangulation.edge_curves():
        single = lift(v)
        for n in range(1, 12):
            w = n * 2**60
            image = lift(w * v)
            assert list(image) == [w * x for x in single], (list(image), list(single))
''', 'lifting a lamination whose weights are near 2**62 so that the sums leave 64 bits', 'the lifting matrix has fixed-width entries and its products wrap around')
seed('C03-mul-isometric', 'C03', EN, "            if self.source_triangulation != other.target_triangulation:\n                raise ValueError('Cannot compose", "            if not self.source_triangulation.is_isometric_to(other.target_triangulation):\n                raise ValueError('Cannot compose", '''
import curver
S = curver.load(1, 2)
T = S.triangulation
z = T.zeta
relabel = T.encode_relabel_edges({i: (i + 1) % z for i in range(z)})
U = relabel.target_triangulation
assert U != T
g = S('a_0')
for f, h in ((g, relabel), (relabel, relabel), (relabel.inverse(), g)):
    try: f * h
    except ValueError: continue
    raise SystemExit('maps between different triangulations are composed')
''', 'composing maps whose triangulations differ by a relabelling', 'maps on different labelled triangulations are composed and give meaningless coordinates')
seed('C04-boundary-empty', 'C04', A, "        boundary = short.triangulation(geometric)\n", "        boundary = short.triangulation(geometric)\n        if boundary.is_empty():  # The arcs cut the surface into discs.\n            return boundary\n", '''
import curver
S = curver.load(0, 4)
T = S.triangulation
U = T
for e in [e for e in T.edges if T.is_flippable(e)][:3]:
    h = T.encode_flip(e)
    m = h.inverse()(h.target_triangulation.as_lamination())   # a triangulation as seen from T
    assert m.triangulation == T
    b = m.boundary()
    assert b.triangulation == T, 'boundary lives on another triangulation'
''', 'a multiarc with empty boundary that is not already short', 'the boundary is returned on the triangulation used for the computation')
seed('C13-halftwist-zero', 'C13', A, "        if not self.has_distinct_endpoints():  # Check where it connects.\n            raise ValueError('Arc connects a vertex to itself')\n        \n        if power == 0:  # Boring case.\n            return self.triangulation.id_encoding()\n", "        if power == 0:  # Boring case.\n            return self.triangulation.id_encoding()\n        \n        if not self.has_distinct_endpoints():  # Check where it connects.\n            raise ValueError('Arc connects a vertex to itself')\n", '''
import curver
S = curver.load(1, 1)
arc = S.triangulation.edge_arc(0)
for power in (0, 1, -1, 2):
    try: arc.encode_halftwist(power=power)
    except ValueError: continue
    raise SystemExit(f'half-twist to the power {power} about an arc from a vertex to itself is answered')
''', 'power zero of a half-twist about an arc from a vertex to itself', 'a half-twist that does not exist is answered with the identity')
seed('C13-load-braid-suffix', 'C13', 'curver/load.py', "r'SB_(?P<num_strands>\\d+)$'", "r'SB_(?P<num_strands>\\d+)'", '''
import curver
for name in ('SB_5x', 'SB_4_2', 'SB_6 ', 'SB_3.5', 'SB_', 'xSB_4', 'SB_1'):
    try: curver.load(name)
    except (ValueError, AssertionError, KeyError): continue
    raise SystemExit(f'{name!r} is loaded')
''', 'a sphere braid name followed by other characters', 'names of surfaces that do not exist are answered with some sphere')
