#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
K = 'curver/kernel/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Operations never modify the objects they are given',
  'No public operation changes an object it is called on or is passed: laminations, curves, arcs, homology classes, triangulations, maps, permutations, subgroups and the lists, sets, dictionaries and matrices supplied by the caller keep their value (private result caches and the union-find structure excepted). '
  'Results handed out earlier, including remembered ones, are not modified by later calls either. '
  'A lamination, homology class, permutation or mapping class group keeps its own copy of the list or dictionaries it was built from, so later changes to those do not change it.',
  ['inputs', 'histories'], 'every public operation, every operand, every later history of calls on the same objects',
  'A test compares results, not the operands afterwards, and aliasing only shows when the same object is reused later in a particular order.',
  [K+f for f in ('lamination.py','curve.py','arc.py','homology.py','triangulation.py','moves.py','twist.py','crush.py','encoding.py','finite.py','curvegraph.py','permutation.py','structures.py','PL.py','mappingclassgroup.py')],
  [('moves copy the coordinate list before editing it', 'EdgeFlip.apply_lamination, Twist.apply_homology, Crush.apply_lamination'),
   ('working copies of label maps', 'Triangulation.find_isometry, Triangulation.encode_relabel_edges'),
   ('remembered results shared between callers', 'decorators.memoize')])

prop('C02', 'All arithmetic is exact at every magnitude',
  'Weights, intersection numbers, slopes, twist powers, multiplicities, matrices and eigenvectors are computed only in unbounded integers, rationals or exact algebraic numbers. '
  'No floating-point value or fixed-width machine integer is ever combined with them, halving is refused when it is not exact, and no result depends on how large the numbers are.',
  ['inputs'], 'laminations of any weight and maps of any length or twist power',
  'Rounding and overflow appear only beyond 2**53, 2**63 or 1e308; the suite uses short words and small weights.',
  [K+f for f in ('lamination.py','curve.py','moves.py','twist.py','crush.py','encoding.py','PL.py','utilities.py','triangulation.py','homology.py','curvegraph.py','permutation.py')],
  [('object-dtype matrices', 'every np.array / np.identity in the kernel'),
   ('exact halving', 'utilities.Half'), ('rational slopes', 'Curve.slope, Curve.relative_twisting')])

prop('C03', 'Objects on different triangulations are never silently combined',
  'Adding or summing laminations or homology classes, taking intersection numbers, applying a map, composing maps, building a mapping class group, and every curve-graph query raise an exception whenever an operand is defined on a different triangulation from the one required. '
  'This holds wherever the foreign operand occurs among several and whether they are given as separate arguments, a list or a dictionary, so no answer is computed from coordinates of two different triangulations.',
  ['inputs'], 'every pair of different triangulations with the same or different numbers of edges, every position of the foreign operand',
  'The strategies in the test suite only generate compatible operands; a missing check returns a plausible number rather than failing.',
  [K+f for f in ('lamination.py','homology.py','encoding.py','triangulation.py','curvegraph.py','mappingclassgroup.py','crush.py')],
  [('triangulation comparison guarding each operation', 'Lamination.__add__, Triangulation.sum, Triangulation.disjoint_sum, IntegralLamination.intersection, HomologyClass.__add__, Encoding.__call__, Encoding.__mul__, CurveGraph.*')])

prop('C04', 'Results live on the triangulation of their operands',
  'Operations that work by moving to a simpler triangulation return their answer on the triangulation of the original operand, having mapped it back by the inverse of the same map. '
  'In between, weights, edges around a vertex, curves and homology classes belonging to one triangulation are never read, added or stored as if they belonged to another.',
  ['inputs'], 'every lamination, subgroup and mapping class, in particular those whose simplification really changes the triangulation',
  'On short inputs the simplification is the identity, so using the wrong one of two triangulations gives the right answer in most samples.',
  [K+f for f in ('lamination.py','curve.py','arc.py','curvegraph.py','finite.py','encoding.py','twist.py','crush.py')],
  [('shorten returns the short lamination with the map to it', 'IntegralLamination.shorten'),
   ('pull-back by the inverse of that map', 'components, boundary, encode_twist, encode_halftwist, boundary_union, quasiconvex, invariant_polygonalisation')])

prop('C05', 'Inverses and compositions have the right endpoints, order and exponent',
  'The inverse of a map runs its moves inverted and in the opposite order from its target to its source, inverting twice gives back a move with the original data, a product applies its right factor first, a power repeats the map that many times (the inverse for negative powers), conjugating uses the inverse on the correct side, and a map is the product of its consecutive slices, empty ones included. '
  'Twists and half-twists to any power account for exactly that power, on laminations, on homology and in their expansion into flips.',
  ['inputs'], 'every move, encoding, integer power and conjugator',
  'Sampled words are short with powers near zero; wrong parity, order or endpoint cases coincide with the right ones on commuting or self-inverse samples.',
  [K+f for f in ('create.py','moves.py','encoding.py','twist.py','crush.py','triangulation.py')],
  [('linked pairs of mutually inverse moves', 'create.link and the create.* functions'),
   ('order reversal', 'Encoding.inverse, Encoding.__call__, Encoding.__mul__, Encoding.package'),
   ('power accounting', 'Twist.apply_lamination, HalfTwist.__init__, MappingClass.__pow__, MappingClass.__call__')])

prop('C06', 'Remembering results never changes an answer',
  'A call whose result was remembered returns what a fresh call with the same arguments on an equal object would compute: remembered results are kept per object, told apart by operation and by every argument with its name, an exception is raised again rather than returned, and nothing that can be consumed or depends on later state is remembered. '
  'Remembered results move to another object only when it has identical data.',
  ['histories', 'inputs'], 'every sequence of calls on the same object with equal, different, default, positional and keyword arguments',
  'Each test case starts from fresh objects, so stale or colliding entries need a particular history of calls.',
  [K+'decorators.py', K+'lamination.py', K+'curve.py', K+'arc.py', K+'triangulation.py', K+'encoding.py', K+'finite.py'],
  [('cache key', 'decorators.memoize, decorators.memoizable'), ('cache transfer', 'Lamination.promote')])

prop('C07', 'Equality is total and agrees with hashing',
  'Comparing any library object with == or != to any value answers False (or True for !=) rather than raising when the value is of an unrelated type, and objects over different triangulations are never equal. '
  'Objects that compare equal hash equally: every hash is computed only from data that equality compares, and containers given as list or tuple with the same entries yield equal objects.',
  ['inputs'], 'every pair of library objects and every foreign operand',
  'Tests compare objects of the same type produced the same way; dictionary and set failures need equal objects built along different routes.',
  [K+f for f in ('triangulation.py','lamination.py','homology.py','encoding.py','moves.py','twist.py','crush.py','finite.py','permutation.py','PL.py','mappingclassgroup.py')],
  [('__eq__ / __hash__ pairs', 'every kernel class defining them')])

prop('C08', 'Saved objects and packaged moves rebuild to equal objects',
  'Unpickling a pickled triangulation, edge, triangle, lamination of any class, or encoding calls its constructor with the fields in the right roles and gives an object equal to the original, including the order of a triangle\'s edges. '
  'The short description produced for each kind of move is understood by the sequence decoder as the same kind of move with the same edge, edges, labels and power, including maps containing crushes, lifts and linear transformations. '
  'Each form of item the decoder documents (a label or edge, a set, a map of labels whether complete, one-sided or partial, an edge with a power, None, a move, an encoding) gives the move it names, on the triangulation reached so far, in the order given.',
  ['inputs'], 'every object and every kind of move, power and orientation',
  'Pickling is exercised on a few generated mapping classes only; less common kinds of move and orientations are never saved.',
  [K+f for f in ('triangulation.py','lamination.py','encoding.py','moves.py','twist.py','crush.py')],
  [('__reduce__ and package', 'Edge, Triangle, Triangulation, Lamination, Encoding, every Move'), ('decoder dispatch', 'Triangulation.encode, create_encoding, create_triangulation')])

prop('C09', 'Computations are deterministic and free of side effects',
  'Apart from choosing random words, no computation reads or writes anything outside its arguments: no files, network, environment, clock, randomness, global or class-level mutable state, object addresses, or display. '
  'Answers do not depend on the interpreter\'s hash seed or on set iteration order of names, and importing the library needs no graphical display.',
  ['schedules', 'configurations', 'histories'], 'every run, process, hash seed and order of calls',
  'The suite fixes the hash seed and random seeds and runs each case once in one environment.',
  [K+'finite.py', K+'encoding.py', K+'mappingclassgroup.py', K+'triangulation.py', K+'lamination.py', 'curver/__init__.py', 'curver/load.py'],
  [('ordering names before using them', 'FiniteSubgroup.from_generators, FiniteSubgroup.quotient_orbifold_signature'), ('single source of randomness', 'MappingClassGroup.random_word')])

prop('C10', 'Every lamination carries the class its contents justify',
  'Scaling, summing, moving and decomposing laminations yield objects whose class promises only what holds: a single curve or arc class only for one component of multiplicity one, a multicurve or multiarc class only when all components are curves or arcs, and an integral class for every integral result, so all operations of that class stay available. '
  'Moves in the flip graph preserve the class; maps that can break or create components (crush, lift, linear transformations, non-disjoint sums) re-derive it.',
  ['inputs'], 'every lamination, multiplicity (including zero and one) and kind of map',
  'A wrong class is invisible until an operation that relies on it runs, and tests build their operands by the promoting route.',
  [K+f for f in ('lamination.py','curve.py','arc.py','triangulation.py','moves.py','twist.py','crush.py')],
  [('class selection', 'Lamination.__mul__, IntegralLamination.__mul__, Triangulation.disjoint_sum, Lamination.promote'), ('class preservation', 'apply_lamination of every move')])

prop('C11', 'The Nielsen-Thurston questions agree with each other',
  'For every mapping class exactly one of periodic, reducible (and not periodic) and pseudo-Anosov is reported as its type, and this agrees with the separate yes/no questions: it is periodic exactly when its order is positive, the identity exactly when its order is one, and pseudo-Anosov exactly when it is neither periodic nor reducible. '
  'Requests that need a periodic class (its cyclic subgroup) or rule one out (its invariant lamination) are refused otherwise, the subgroup of a periodic class lists each power below its order once, and conjugacy is denied when these invariants differ.',
  ['inputs'], 'every mapping class on every surface',
  'Deciding the type of one example can take hours, so the tests only touch a handful of mapping classes.',
  [K+'encoding.py', K+'finite.py'],
  [('classification', 'MappingClass.nielsen_thurston_type, is_periodic, is_reducible, is_pseudo_anosov, is_identity, order'), ('guards', 'MappingClass.subgroup, projective_invariant_lamination, is_conjugate_to')])

prop('C12', 'Flips transform coordinates correctly and reversibly',
  'Flipping an edge and then applying the inverse move returns every lamination and every homology class (up to homology) to itself and restores the triangulation with its labels and orientations. '
  'A flip changes only the flipped edge\'s weight, gives a well-defined answer for every sign and size pattern of the five weights involved, and the single flip, the simultaneous flip of several edges and the matrix form of the action with its region of validity all describe this same map.',
  ['inputs'], 'every tuple of weights of the square around every flippable edge, both orientations, including terminal arcs and multiple parallel arcs',
  'The action is piecewise linear with nine regions and both edge orientations; random tests rarely hit the thin regions involving arcs.',
  [K+'moves.py', K+'triangulation.py', K+'create.py', K+'utilities.py'],
  [('flip formula', 'EdgeFlip.apply_lamination, MultiEdgeFlip.apply_lamination'), ('homology transport', 'EdgeFlip.apply_homology, MultiEdgeFlip.apply_homology'),
   ('matrix form', 'EdgeFlip.pl_action, MultiEdgeFlip.pl_action'), ('retriangulation', 'Triangulation.encode_multiflip, Triangulation.square')])

prop('C13', 'Requests outside an operation\'s domain are refused, never answered',
  'Every request an operation cannot meaningfully answer ends in an exception rather than a value: negative multiplicities, slopes or relative twisting about peripheral or disjoint curves, half-twists about arcs from a vertex to itself, subgroups of non-periodic classes, forgetful types of laminations with arcs, relabelling with missing or inconsistent labels, inexact halving, malformed triangulations, unloadable surfaces, and words with unknown letters, unbalanced parentheses or misplaced powers. '
  'No placeholder is returned in place of an answer that is not implemented.',
  ['inputs'], 'every malformed or out-of-domain request',
  'Tests exercise valid requests; a dropped guard yields a plausible wrong value instead of a failure.',
  [K+f for f in ('lamination.py','curve.py','arc.py','crush.py','triangulation.py','mappingclassgroup.py','permutation.py','utilities.py','encoding.py','PL.py','structures.py')] + ['curver/load.py'],
  [('guards', 'Curve.slope, Curve.relative_twisting, MultiArc.encode_halftwist, Triangulation.sum/disjoint_sum, find_isometry, encode_relabel_edges, from_tuple, Half, load, MappingClassGroup.mapping_class')])

prop('C14', 'Example surfaces are well formed for every genus and puncture count',
  'For every genus g >= 0 and number of punctures n >= 1 for which the surface can be triangulated, loading it produces a triangulation with 6g+3n-6 edges in which every edge label occurs exactly once with each orientation, every curve and arc is described by edge labels that exist with weights of full length, and the generators have the documented names: the curves a_i, b_i, c_i, d_i, p_i are single simple closed curves that meet exactly as in the Lickorish generating set (b_i meets a_i, c_i, c_{i-1} and d_i once, b_{g-1} meets every p_i once, all other pairs are disjoint), the arcs s_i join consecutive punctures, through all of them, and s_i meets p_i and no other p_j. '
  'The group has for each name the twist (half-twist) about that curve (arc) and for the swapped case its inverse. '
  'Requests by an old name (S_0_4, S_1_1, ..., SB_n) give the generators that name always stood for, which exist and meet as they should, and every other pair or name is refused.',
  ['inputs'], 'all pairs (g, n)', 'Only a dozen small (g, n) are loaded by the tests; the formulas are parametric in both.',
  ['curver/load.py', K+'triangulation.py'],
  [('parametric label lists', 'S_0_n, S_1_n, S_2_n, S_3_n, S_g_n'), ('dispatch', 'load, load_old')])

prop('C15', 'Edges may be given as integers or as edges everywhere',
  'Every public operation that takes an edge accepts equally the edge itself and its integer label, of either orientation, alone or inside a collection, and treats the two alike. '
  'Neither form fails, is ignored or selects a different branch.',
  ['inputs'], 'every operation taking an edge, every label and both orientations',
  'Each test passes edges in one form only.',
  [K+f for f in ('triangulation.py','lamination.py','homology.py','moves.py','encoding.py','crush.py','twist.py')],
  [('label normalisation', 'isinstance(edge, curver.IntegerType) conversions')])

prop('C16', 'Compressed words denote exactly the word they are built from',
  'Concatenating, repeating, reversing, relabelling, summing and shifting compressed words gives the compressed form of the corresponding operation on the plain sequences of letters, for every length and exponent, and length, indexing, membership and iteration agree with that plain sequence. '
  'No node of the result refers outside its own part of the structure. '
  'A word written as text, with generator names (longest first when one begins another), powers, parentheses, dots and spaces, or given as a list or tuple of names, denotes the product of generators it spells, negative powers being the inverse word.',
  ['inputs'], 'every pair of compressed words, every exponent, every word in the generators',
  'Offsets only go wrong for particular combinations of sizes and binary expansions of the exponent.',
  [K+'structures.py', K+'mappingclassgroup.py'],
  [('node layout', 'StraightLineProgram.__add__, __radd__, sum, __mul__, __lshift__, __rshift__, reverse, map'), ('letters', 'StraightLineProgram.__getitem__, __iter__, __contains__'), ('words as text', 'MappingClassGroup.mapping_class')])

# Properties that matter but that no static argument in reach decides.
prop('C17', 'Sums and multiples count every summand as often as it is given',
  'The sum of laminations on one triangulation has on every edge the sum of the weights of all of them, each counted as often as it is given: added one after another with +, or at once with sum or disjoint_sum from a list, a tuple, an iterator, a set or a dictionary of multiplicities, in any order, with repetitions, equal copies, empty laminations and multiplicity zero. A multiple has every weight multiplied. The parts of a lamination account for it in the same way: multiarc and multicurve contain each arc or curve as often as it occurs, skeleton each component once, num_components counts multiplicity, peripheral contains each peripheral component as often as it occurs and non_peripheral is the rest, the boundary of a multicurve is two copies of it and that of a lamination is the boundaries of its arcs and curves together. Homology classes add, subtract and negate coefficient by coefficient, and sum() of them works. Intersection numbers with several laminations are the sum of those with each, repetitions included, and each component of a lamination counts with its multiplicity.',
  ['inputs'], 'every collection of laminations, multiplicity and homology class, in every form', 'Tests sum a few distinct laminations; repeated summands, iterators, mixed multiplicities and empty parts are hardly ever given.',
  [K+'triangulation.py', K+'lamination.py', K+'homology.py', K+'curve.py'], [('sums', 'Triangulation.sum, Triangulation.disjoint_sum, Lamination.__add__'), ('multiples', 'Lamination.__mul__, IntegralLamination.__mul__'), ('parts', 'Lamination.peripheral, Lamination.non_peripheral, IntegralLamination.skeleton/multiarc/multicurve/num_components/boundary'), ('homology', 'HomologyClass.__add__/__sub__/__neg__'), ('intersections', 'IntegralLamination.intersection')])
prop('N01', 'Shortening terminates and reaches a short lamination',
  'Simplifying any integral lamination terminates after polynomially many rounds in the size of its weights and the result has every non-peripheral component parallel to an edge.',
  ['inputs'], 'every integral lamination', 'Termination and complexity over all weights cannot be sampled.',
  [K+'lamination.py'], [('weight-reducing flips and accelerating twists', 'IntegralLamination.shorten')])
prop('N02', 'Two mapping classes compare equal exactly when they are isotopic',
  'Equality of maps solves the word problem: it holds exactly when the two maps are isotopic, on every surface including the once-punctured torus.',
  ['inputs'], 'every pair of words', 'Infinitely many words.',
  [K+'encoding.py'], [('image of the triangulation and homology', 'Mapping.__eq__')])
prop('N03', 'Intersection numbers are geometric, symmetric and invariant',
  'The intersection number of two laminations is their minimal geometric intersection, is symmetric, and is preserved by applying a mapping class to both.',
  ['inputs'], 'every pair of laminations', 'Infinitely many pairs; the number is a global quantity.',
  [K+'lamination.py'], [('intersection via shortening', 'IntegralLamination.intersection')])
prop('N04', 'Topological types classify mapping class group orbits',
  'Two laminations have equal topological type exactly when some mapping class takes one to the other.',
  ['inputs'], 'every pair of laminations', 'Completeness of an invariant quantifies over all mapping classes.',
  [K+'lamination.py'], [('labelled graph canonical form', 'IntegralLamination.topological_type')])
prop('N05', 'Curve-graph distances and translation lengths are correct',
  'Distances are lengths of shortest paths in the curve graph and translation lengths are their asymptotic growth rates.',
  ['inputs'], 'every pair of curves, every mapping class', 'A single query is astronomically expensive.',
  [K+'curvegraph.py', K+'encoding.py'], [('tight geodesics', 'CurveGraph')])
prop('N06', 'Quotient orbifold signatures are complete conjugacy invariants',
  'Two finite-order mapping classes are conjugate exactly when the recorded quotient orbifold signatures agree.',
  ['inputs'], 'every pair of finite subgroups', 'Quantifies over all conjugating classes.',
  [K+'finite.py'], [('covering data', 'FiniteSubgroup.quotient_orbifold_signature')])
prop('N07', 'Twist and half-twist images are those of the topological twist',
  'Applying an accelerated power of a twist gives the same lamination as applying the twist that many times, in particular when crossing the region of small slope.',
  ['inputs'], 'every curve, lamination and power', 'The three-step bound is a theorem about slopes of unbounded weights.',
  [K+'twist.py'], [('accelerated action', 'Twist.apply_lamination, Twist.pl_action')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
