#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every sa/check_cNN.py, everything else not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('alias and effect analysis by abstract interpretation', 'Every in-place modification in the kernel is attributed to the origin of the modified object; a flow from a caller-owned, stored or remembered object to a modifying construct is reported. Unknown origins are silent. Trusts the stated contracts of kernel operations, which are themselves checked against the bodies.'),
 'C02': ('numeric-kind dataflow by abstract interpretation', 'Each number carries its kind (int, Fraction, algebraic, float, fixed width); a float or fixed-width value reaching exact data, or an inexact operation on exact data, is reported. Values of unknown kind are silent.'),
 'C03': ('guard reachability by abstract interpretation over symbolic triangulations', 'Each operation is analysed with operands on provably different triangulations; reaching a normal return is a violation. Decides refusal, not the wording of the error.'),
 'C04': ('frame (provenance) type system by abstract interpretation', 'Each value carries the symbolic triangulation it lives on; results, sums and reads are checked against it on every path. Values whose frame the analysis loses are silent.'),
 'C05': ('abstract interpretation of move constructors and compositions: words of formal moves in a free group, symbolic powers and weights', 'Decides inverses, order, endpoints, exponents and conjugators for words of formal moves and, for the real moves, on symbolic laminations over a set of gluing patterns. That a twist equals the geometric twist on arbitrary triangulations is not decided (N07).'),
 'C06': ('dataflow over the memoizing decorator and its users', 'Decides that the key tells calls apart, that exceptions and one-shot values are handled, and that caches only travel between objects with identical data.'),
 'C07': ('access-path comparison of __eq__ and __hash__ and abstract evaluation on foreign operands', 'Decides totality of comparison and that hashes read no more than equality compares.'),
 'C08': ('abstract round trip through __reduce__/package and the constructors/decoder', 'Decides that each field returns to its own role; equality of numerical data follows because it is passed through unchanged.'),
 'C09': ('effect analysis of every construct, search for changes of shared state through aliases, and abstract interpretation of every operation for sets of unstable order', 'Whole kernel and loaders: no construct reaches ambient state, nothing that outlives a call is changed, no set whose members hash by name or address is gone through where the order can matter, written words draw nothing at random. What other libraries do inside, and state reached only through containers of unknown contents, is not followed.'),
 'C10': ('class-lattice dataflow by abstract interpretation', 'Decides the class of results from the classes of operands on every path.'),
 'C11': ('decision-table comparison by abstract interpretation of the predicates', 'Enumerates the finite set of abstract answers of the underlying invariants and compares each derived answer with the specification.'),
 'C12': ('symbolic abstract evaluation of flips over all local configurations, compared piecewise-linearly', 'All sign and size patterns of symbolic weights in every local gluing pattern; exact comparison of piecewise-linear terms.'),
 'C13': ('guard reachability by abstract interpretation over out-of-domain requests', 'Each listed request is analysed abstractly; reaching a normal return is a violation.'),
 'C14': ('generating functions of label lists with genus and puncture count symbolic, and constant propagation through the loaders', 'The label identity is decided for every (g, n); curves, arcs and their intersections by constant propagation for every (g, n) of a box and around each number the loaders compare with.'),
 'C15': ('two-form comparison by abstract interpretation', 'Each edge parameter is analysed in both forms; a failure, or a different result, is a violation.'),
 'C17': ('abstract interpretation with symbolic weights', 'Each weight of a sum, multiple or part is a linear term compared with what the parts add up to.'),
 'C16': ('constant propagation over compressed words and over the parser of words, letters symbolic', 'Every way of building a compressed word is evaluated abstractly, with letters that are distinct unknowns, over word shapes up to a bound in nesting, and exponents through several binary lengths; longer words are covered only in so far as they repeat these shapes.'),
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
NA = {
 'N01': 'termination bounds and minimality of weights quantify over run-time numbers; no static argument in reach bounds them',
 'N02': 'faithfulness of the action on a filling set is a theorem about surfaces, not visible in the shape of the code',
 'N03': 'equality of a computed number with a geometric minimum is a numerical result',
 'N04': 'completeness of a topological invariant is a mathematical fact about all laminations',
 'N05': 'numerical distances and growth rates of an infinite graph',
 'N06': 'completeness of a conjugacy invariant is a mathematical fact about all finite subgroups',
 'N07': 'agreement of the accelerated formula with repeated twisting is a numerical identity over unbounded weights and powers',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sa', f'check_{i.lower()}.py')):
        checks.append({'property': i, 'quick_cmd': f'python3 sa/run.py {i}', 'thorough_cmd': f'python3 sa/run.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json', 'technique': 'static analysis: ' + TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
