''' Writes /verif/properties.jsonl. '''
import json, os
K = 'curver/kernel/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


prop('P01', 'Triangulations are built exactly as described and named uniquely',
     'Building a triangulation from a list of labelled triangles succeeds exactly when each of 0..zeta-1 and its inverse labels occurs once, and is rejected otherwise. '
     'Equality, hashing and the signature string depend only on the set of triangles (not on their order or rotation), distinct triangulations have distinct signatures, and decoding a signature returns the same triangulation. '
     'Its vertices, components, genus, punctures, Euler characteristic, flippability, squares and dual trees are those of the glued surface.',
     ['inputs'], 'all lists of label triples (valid or not, connected or not, every genus) and all orders / rotations of them',
     'Tests sample a dozen connected signatures; the claim is over every gluing, including disconnected and invalid ones.',
     [K + 'triangulation.py', K + 'permutation.py', K + 'utilities.py'],
     [('label validation', 'Triangulation.from_tuple'), ('canonical order', 'Triangulation.__init__, Triangle.__init__'), ('signature codec', 'sig / from_sig, Permutation.index'), ('topology', 'surface, components, vertices, dual_tree')],
     ['create_triangulation', 'triangulation_from_sig', 'sig()', 'surface()'])
prop('P02', 'Flipping edges moves laminations to their true coordinates',
     'Flipping an edge (or several edges with disjoint support) of a triangulation exchanges the diagonals of the surrounding squares, and the induced map sends each lamination - including arcs, arcs parallel to edges, peripheral curves and non-integral laminations - to the coordinates it really has on the new triangulation, preserving its kind. '
     'The map is homogeneous, the inverse undoes it exactly, and flipping several edges at once agrees with flipping them one after another in any order. '
     'A flip is refused when the edge is not flippable or the supports overlap.',
     ['inputs', 'histories'], 'all triangulations, flippable edges (both orientations), sets of edges with disjoint support, and all laminations with any (also huge) weights',
     'The flip formula has nine cases per edge; a handful of sampled laminations exercise few of them, and tests only compare the code with itself.',
     [K + 'moves.py', K + 'triangulation.py', K + 'create.py'],
     [('case analysis', 'EdgeFlip.apply_lamination, MultiEdgeFlip.apply_lamination'), ('new triangles', 'encode_multiflip')], ['encode_flip', 'encode_multiflip', 'encode'])
prop('P03', 'Laminations decompose into their true components and kinds',
     'A weight vector is reported integral exactly when it is realised by strands; asking for its components returns exactly its connected components, each with its true multiplicity, and their weighted sum is the original. '
     'A lamination is presented as Curve, Arc, MultiCurve, MultiArc or mixed exactly according to its components, and its peripheral part, non-peripheral part and parallel components are the true ones. '
     'Weights, dual weights, left and right weights agree with counting strands, and inconsistent weights are reported by an error rather than misread. The lamination depends only on the weights, not on the kind of sequence they are given as.',
     ['inputs'], 'all triangulations and all weight vectors, including negative (parallel) weights, mixed arc and curve systems, multiplicities and empty laminations',
     'Tests build laminations only from a few generators and compare components against the same shortening code.',
     [K + 'lamination.py', K + 'triangulation.py'],
     [('components', 'IntegralLamination.components'), ('promotion', 'Lamination.promote'), ('peripheral/parallel', 'peripheral_components, parallel_components'), ('strand counts', 'dual_weight')],
     ['Triangulation(...)', 'components()', 'peripheral()', 'num_components()'])
prop('P04', 'Shortening always terminates in an equivalent short lamination',
     'For every integral lamination and every drop parameter in [0, 1], shortening terminates and returns a short lamination of the correct kind together with a mapping that carries the original exactly onto it. '
     'Short means every non-peripheral component is parallel to an edge of the triangulation, and a short lamination is recognised as short. '
     'The length of the computed mapping grows at most polynomially in the number of digits of the weights (for drop > 0).',
     ['inputs'], 'all integral laminations (arcs, curves, mixed, with multiplicity, weights of hundreds of digits) and all drop values',
     'Weights in tests are tiny and the drop parameter is never varied; termination and acceleration are for-all claims.',
     [K + 'lamination.py', K + 'twist.py'], [('flip/twist loop', 'IntegralLamination.shorten'), ('acceleration', 'trace_curve + Curve.slope + encode_twist')], ['shorten', 'is_short'])
prop('P05', 'Geometric intersection numbers are exact',
     'The intersection number of two laminations is the minimal number of crossings between them, summed over all pairs of components with multiplicity. '
     'It is symmetric, additive in several arguments, invariant under every mapping, and intersecting with an edge arc reads off that edge\'s non-negative weight. '
     'Slopes on the once-punctured torus and four-punctured sphere give the classical determinant formula.',
     ['inputs'], 'all pairs of integral laminations on all triangulations, including peripheral, parallel, multiple and mixed components',
     'Tests only check symmetry and invariance on small samples of mostly connected laminations.',
     [K + 'lamination.py'], [('intersection via shortening', 'IntegralLamination.intersection')], ['intersection', 'no_common_component'])
prop('P06', 'Dehn twists are right Dehn twists for every curve and power',
     'The (multi)twist about any multicurve to any integer power acts on every lamination as the right Dehn twist about each component to that power times its multiplicity, and is trivial about peripheral curves. '
     'Powers add, huge powers agree with repeated application while being computed quickly, disjoint twists commute, twists about curves meeting once satisfy the braid relation, and a mapping conjugates the twist about c to the twist about its image. '
     'Twisting fixes everything disjoint from the curve.',
     ['inputs', 'histories'], 'all multicurves, all powers (negative, zero, huge), all laminations and real weights',
     'Tests check a few relations with small powers; acceleration switches on only for specific slope and power combinations.',
     [K + 'twist.py', K + 'curve.py', K + 'create.py'], [('accelerated power', 'Twist.apply_lamination'), ('multitwist', 'MultiCurve.encode_twist')], ['encode_twist'])
prop('P07', 'Half-twists swap the ends of their arc and square to the boundary twist',
     'The half-twist about a (multi)arc whose components have distinct ends exchanges the two punctures of each component, fixes the arc and every lamination that misses the arc and its ends, and squares to the right Dehn twist about the boundary of the arc. '
     'Every power (positive, negative, odd, even, huge) is the corresponding power, adjacent half-twists satisfy the braid relation, disjoint ones commute and mappings conjugate them naturally. '
     'An arc with coinciding ends is refused.',
     ['inputs', 'histories'], 'all arcs with distinct endpoints on all surfaces, all powers',
     'Tests use one or two arcs per surface and powers near zero.',
     [K + 'twist.py', K + 'arc.py'], [('half twist construction', 'HalfTwist.__init__'), ('arc entry point', 'MultiArc.encode_halftwist')], ['encode_halftwist'])
prop('P08', 'Mappings form a groupoid in which equality solves the word problem',
     'Composition, inversion, powers and identities of mappings obey the groupoid laws and composition is application in sequence; mapping something on the wrong triangulation is refused. '
     'Two mappings compare equal exactly when they act identically on all laminations and homology (however they were written), and equal mappings have equal hashes. '
     'Slicing an encoding splits it so that the slices multiply back to the whole, and its kind (Encoding, Mapping, MappingClass) reflects its ends.',
     ['programs', 'inputs'], 'all words in flips, multi-flips, relabellings, isometries, twists and half-twists, and all slice bounds',
     'The word problem is a claim over all words; tests compare a few random words of small length.',
     [K + 'encoding.py', K + 'moves.py', K + 'triangulation.py'], [('equality', 'Mapping.__eq__'), ('slicing', 'Encoding.__getitem__'), ('composition', 'Encoding.__mul__'), ('sequence notation', 'Triangulation.encode')], ['*', '**', '==', 'hash', '[]'])
prop('P09', 'Homology classes and the action on homology are correct',
     'Homology classes are equal exactly when they differ by boundaries of triangles, and the canonical form and basis represent relative first homology faithfully. '
     'Every mapping induces a well-defined linear isomorphism compatible with composition, inverse and boundary (it moves endpoints as it moves punctures), and agrees with how the mapping moves arcs and with the algebraic intersection formula for twists. '
     'The homology matrix represents that action in the canonical bases.',
     ['inputs', 'programs'], 'all homology classes (any integer coefficients), all mappings',
     'Tests check functoriality for a few generators only.',
     [K + 'homology.py', K + 'moves.py', K + 'twist.py', K + 'triangulation.py', K + 'encoding.py'], [('canonical form', 'homology_matrix / HomologyClass.canonical'), ('action', 'apply_homology'), ('matrix', 'Mapping.homology_matrix')], ['HomologyClass', 'homology_matrix()'])
prop('P10', 'Objects survive serialization unchanged',
     'Pickling and unpickling any triangulation, lamination, homology-independent move sequence, mapping or group element returns an equal object that behaves identically, and packaging an encoding and rebuilding it from its source triangulation does too. '
     'This includes arcs, curves and mixed laminations, multi-flips, relabellings, isometries, twists and half-twists with any power, crushes and lifts. '
     'Textual forms that are documented to be re-readable (signature, package) are stable under a second round trip.',
     ['inputs', 'programs'], 'all constructible objects',
     'Tests pickle a few objects made from generators; every move type must round trip in every combination.',
     [K + 'triangulation.py', K + 'lamination.py', K + 'encoding.py', K + 'moves.py', K + 'twist.py', K + 'crush.py'], [('package/encode', 'Move.package, Triangulation.encode'), ('reduce', '__reduce__ methods')], ['pickle', 'package()', 'encode()'])
prop('P11', 'Rewriting a mapping never changes what it does',
     'Simplifying a mapping, expanding it into flips and isometries, and gathering all of its isometries into one each return a mapping with the same source and target that acts identically. '
     'The expanded form contains only flips and isometries, and the gathered form contains a single isometry. '
     'The result of simplifying depends only on the mapping, not on the word used to write it.',
     ['programs'], 'all mappings written as words in every kind of move', 'Tests cover short words over standard generators.',
     [K + 'encoding.py', K + 'twist.py'], [('simplify', 'Mapping.simplify'), ('flip_mapping', 'Mapping.flip_mapping'), ('combine_isometries', 'Mapping.combine_isometries')], ['simplify()', 'flip_mapping()', 'combine_isometries()'])
prop('P12', 'Order, identity, periodicity and Torelli tests are exact',
     'The reported order of a mapping class is the least positive power equal to the identity, or 0 when there is none, and never exceeds the surface\'s advertised maximum order. '
     'Identity, periodic and Torelli tests and the induced permutation of the punctures are consistent with it and with composition, and all of these are invariant under conjugation. '
     'A periodic class is reported reducible exactly when its quotient orbifold is not a triangle orbifold, and has exactly one Nielsen-Thurston type.',
     ['inputs', 'programs'], 'all mapping classes, periodic or not, including on disconnected surfaces', 'Tests use a short list of known periodic words.',
     [K + 'encoding.py', K + 'triangulation.py'], [('order', 'MappingClass.order'), ('bound', 'Triangulation.max_order'), ('type', 'is_reducible, nielsen_thurston_type')], ['order()', 'is_identity()', 'is_in_torelli()', 'nielsen_thurston_type()'])
prop('P13', 'Conjugacy of periodic mapping classes is decided correctly',
     'A periodic mapping class is reported conjugate to each of its conjugates, and conjugacy is an equivalence relation. '
     'Classes reported conjugate share every conjugacy invariant (order, puncture permutation type, orders of powers, traces on homology), and powers or classes separated by such an invariant are reported not conjugate. '
     'When neither class is periodic the question is refused rather than guessed.',
     ['inputs', 'programs'], 'all pairs of mapping classes of which one is periodic', 'Tests sample a few conjugators.',
     [K + 'encoding.py', K + 'finite.py'], [('conjugacy', 'MappingClass.is_conjugate_to'), ('signature', 'FiniteSubgroup.quotient_orbifold_signature')], ['is_conjugate_to'])
prop('P14', 'Finite subgroups and their quotient orbifolds are computed correctly',
     'The subgroup generated by finitely many periodic classes (that generate a finite group) is listed completely and without repetition, each element named by a word that evaluates to it. '
     'Its invariant polygonalisation is fixed by every element and cuts the surface into polygons. '
     'The quotient orbifold signature satisfies the Riemann-Hurwitz formula with integral genus, has consistent cone orders, preimages and holonomy, and is invariant under conjugation.',
     ['inputs', 'programs'], 'all finite subgroups on all surfaces', 'Tests cover cyclic groups from a short list.',
     [K + 'finite.py'], [('closure', 'FiniteSubgroup.from_generators'), ('polygonalisation', 'invariant_polygonalisation'), ('signature', 'quotient_orbifold_signature')], ['FiniteSubgroup', 'subgroup()'])
prop('P15', 'Crushing along a multicurve and lifting back are correct',
     'Crushing along a multicurve produces the surface obtained by cutting along its non-peripheral components and replacing each side by a puncture. '
     'Components of the multicurve vanish, components disjoint from it survive with their kind and multiplicity, and components crossing it are cut into arcs running into the new punctures, one more piece (for arcs) than there are crossings. '
     'Intersection numbers with laminations disjoint from the multicurve are preserved, twisting about it beforehand makes no difference, and all of this is natural under mappings. '
     'Lifting a multicurve from the crushed surface gives a multicurve disjoint from the crushed one, peripheral curves of the new punctures lift to its components, and crushing a lift again returns all but those parts.',
     ['inputs'], 'all multicurves and laminations, separating or not', 'Tests crush a few curves only.',
     [K + 'crush.py', K + 'curve.py'], [('crush', 'Crush.apply_lamination, Curve.crush, MultiCurve.crush'), ('lift', 'Lift')], ['crush()', 'inverse of crush'])
prop('P16', 'Boundaries, filling and cutting tests match the topology',
     'The boundary of a multiarc or lamination is the boundary of its regular neighbourhood, and the boundary of a union of a multicurve with a lamination is disjoint from both. '
     'Filling, filling-with, separating, polygonalisation, triangulation and distinct-endpoint tests are true exactly when the complement of the lamination has the corresponding topology. '
     'All of these are natural under every mapping.',
     ['inputs'], 'all laminations on all surfaces', 'Tests check invariance only, never truth.',
     [K + 'arc.py', K + 'curve.py', K + 'lamination.py'], [('boundary', 'MultiArc.boundary, MultiCurve.boundary_union'), ('filling', 'is_filling, fills_with'), ('cutting', 'is_polygonalisation, is_separating, is_triangulation')], ['boundary()', 'is_filling()', 'fills_with()'])
prop('P17', 'Topological types classify laminations up to mapping classes',
     'Laminations related by a mapping class have equal topological types, no matter which triangulation they are written on. '
     'Laminations with equal types have complements, multiplicities and adjacency of the same topological kind; laminations whose complements differ have different types. '
     'The closed variant forgets the puncture in the same sense and is refused where it is not defined.',
     ['inputs'], 'all integral laminations and all mapping classes', 'Tests sample short words applied to a few laminations; the invariance test is switched off in the repository.',
     [K + 'lamination.py'], [('canonical labelled graph', 'topological_type')], ['topological_type()'])
prop('P18', 'Words denote the mapping classes their notation says',
     'A string of generator names with powers, parentheses, dots and spaces denotes the product, right to left, of the named generators, capitals denote inverses, and a list of names denotes the same product. '
     'Strings that cannot be decomposed into generators are rejected with a ValueError rather than partly ignored. '
     'Random words have the requested length and use only the requested letters.',
     ['inputs'], 'all strings over the grammar, and malformed strings', 'Tests parse a few fixed strings.',
     [K + 'mappingclassgroup.py', K + 'structures.py'], [('parser', 'MappingClassGroup.mapping_class'), ('random words', 'random_word')], ['S(word)', 'random_word'])
prop('P19', 'Standard generating sets live on the requested surface and satisfy its relations',
     'For every triangulable (g, n) the loaded group lives on a connected surface of genus g with n punctures; other pairs and unknown names are refused. '
     'Its named curves and arcs intersect in the documented Lickorish pattern, so the twists satisfy the commutation, braid, chain and lantern type relations, and the half-twists generate the full symmetric group on the punctures. '
     'Every documented flipper-style name loads and lives on the surface that it names.',
     ['configurations'], 'all (g, n) in range and all named surfaces', 'Tests load only a few surfaces.',
     ['curver/load.py', K + 'mappingclassgroup.py'], [('constructions', 'S_0_n ... S_g_n, load_old')], ['curver.load'])
prop('P20', 'Isometries between triangulations are found completely and act faithfully',
     'The isometries between two triangulations are exactly the orientation-preserving label bijections respecting triangles, each found once, and the isometry test agrees. '
     'A partial label map extends to an isometry exactly when one exists and is refused otherwise. '
     'Applying an isometry or relabelling permutes weights and homology accordingly, and inverses undo it.',
     ['inputs'], 'all pairs of triangulations, connected or not', 'Tests check a few relabelled triangulations.',
     [K + 'triangulation.py', K + 'moves.py'], [('search', 'isometries_to, find_isometry'), ('relabelling', 'encode_relabel_edges')], ['isometries_to', 'self_isometries', 'is_isometric_to', 'find_isometry'])
prop('P21', 'Piecewise-linear actions and invariant laminations are correct',
     'The piecewise-linear piece reported for a mapping at a multicurve contains that multicurve and acts as the mapping does on every multicurve in its domain, and refuses points outside it. '
     'Composition of pieces is composition of maps. '
     'For a pseudo-Anosov class the reported dilatation and lamination satisfy the eigen-equation exactly, and on the once-punctured torus the dilatation is the one given by the trace.',
     ['inputs', 'programs'], 'all mappings and multicurves', 'Tests check one point per cell.',
     [K + 'PL.py', K + 'encoding.py', K + 'moves.py', K + 'twist.py'], [('cells', 'pl_action methods'), ('eigenvector', 'PartialLinearFunction.eigenvector, projective_invariant_lamination')], ['pl_action', 'projective_invariant_lamination'])
prop('P22', 'Slopes, relative twisting and multitwist recognition are correct',
     'The slope of a lamination about a curve increases by exactly one per right Dehn twist (outside the interval [-1, 1]) and ignores multiplicity, and relative twisting counts twists: it is natural under mappings, and for multicurves changes by exactly the twisted power and is antisymmetric (within one when arcs are involved). '
     'A non-trivial mapping class is recognised as a multitwist exactly when it is a product of positive powers of twists about disjoint curves, and the recovered multicurve twists to it. '
     'Questions about peripheral or disjoint curves are refused with an error.',
     ['inputs'], 'all curves, laminations and powers', 'Tests sample a few powers.',
     [K + 'curve.py', K + 'encoding.py'], [('slope', 'Curve.slope'), ('relative twisting', 'Curve.relative_twisting'), ('recognition', 'extract_twisting_multicurve')], ['slope', 'relative_twisting', 'is_multitwist'])
prop('P23', 'Sums, multiples and parts of laminations obey the expected algebra',
     'Adding laminations adds weights, and sums over collections count every occurrence (lists with repeats, dictionaries with multiplicities, generators and empty collections alike). '
     'Multiples have the components of the original with scaled multiplicities and remain usable as integral laminations; skeleton, multiarc, multicurve, sublaminations and single components partition the lamination as described. '
     'The parts of laminations with fractional or irrational multiplicities are described in the same way, and count as integral laminations only when their multiplicities are integers. '
     'Laminations on different triangulations and negative multiplicities are refused.',
     ['inputs'], 'all laminations and collections of laminations, with repeats', 'Tests use distinct summands only.',
     [K + 'triangulation.py', K + 'lamination.py'], [('sum', 'Triangulation.sum, disjoint_sum'), ('multiples', '__mul__'), ('parts', 'skeleton, multiarc, multicurve, sublaminations')], ['sum', 'disjoint_sum', '+', '*'])
prop('P24', 'Permutations behave as elements of the symmetric group',
     'Products, inverses, powers, order, parity, cycle type, matrix and conjugacy of permutations agree with the definitions. '
     'The index is the rank in lexicographic order and ranking and unranking are inverse bijections. '
     'Permutations of different sizes are not composed, and non-permutations are refused.',
     ['inputs'], 'all permutations of any size and integer powers', 'Tests sample small sizes.',
     [K + 'permutation.py'], [('rank/unrank', 'index / from_index'), ('group operations', '__mul__, __pow__, inverse')], ['Permutation'])
prop('P25', 'Straight-line programs behave as the sequences they compress',
     'A straight-line program of a sequence has that sequence\'s length, items, iteration order, membership and reversal. '
     'Sums, multiples, mapping and reversal of programs agree with the same operations on lists, even when the sequence is far too long to write out. '
     'Indexing outside the sequence is refused.',
     ['inputs', 'programs'], 'all trees of operations on sequences, including astronomically long ones', 'Tests use short sequences.',
     [K + 'structures.py'], [('graph representation', 'StraightLineProgram')], ['SLP'])
prop('P26', 'Union-find and helper utilities match their specifications',
     'After any history of unions, two items are in one class exactly when connected by unions, and iteration and length report the classes. '
     'The helpers for cyclic slicing, early-terminating maxima and minima, argmax lists, products, base-64 coding, halving and natural sorting equal their plain definitions on all inputs. '
     'Cached methods return what an uncached call would, including errors.',
     ['histories', 'inputs'], 'all histories of union operations and all helper inputs', 'Tests use a few examples.',
     [K + 'structures.py', K + 'utilities.py', K + 'decorators.py'], [('UnionFind', 'structures.py'), ('helpers', 'utilities.py'), ('memoize', 'decorators.py')], ['curver.kernel.utilities', 'curver.kernel.UnionFind'])
prop('P27', 'Local curve-graph constructions return the right curves',
     'Vertex cycles of a multicurve are curves carried by it that cross each edge at most twice, and at least one exists for a non-empty multicurve. '
     'The quasiconvex set of two curves contains both and consists of curves on the same triangulation. '
     'Paths of length at most two between multicurves are tight paths: they exist exactly when the multicurves are equal, disjoint without common components, or have a neighbourhood boundary that is not peripheral and shares no component with them. '
     'For curves at distance at most two, distance and geodesic are the true ones: the geodesic is a path of successively disjoint essential curves of that length.',
     ['inputs'], 'all pairs of curves on connected surfaces', 'Tests use tiny examples.',
     [K + 'curvegraph.py', K + 'curve.py'], [('vertex cycles', 'MultiCurve.vertex_cycles'), ('paths', 'CurveGraph.tight_paths, quasiconvex')], ['CurveGraph', 'vertex_cycles'])
prop('P28', 'Drawings show the triangulation and lamination they are given',
     'Drawing a triangulation lays out every triangle once, without degenerate triangles, with each edge gluing represented consistently. '
     'Drawing an integral lamination of small weights draws, on each side of each triangle, exactly as many strand ends as the weight says, matching across edges and running round the right corners; '
     'larger, fractional and irrational laminations are drawn as bands of proportional widths in the same places. '
     'Labels and arrows are those of the edges they are on, and zooming, moving and changing options keep the picture the same. '
     'Showing several things, with or without names, gives each its own tab on which it fits, and keys and menus act on the current one as they say. '
     'Drawing leaves the object drawn unchanged.',
     ['inputs'], 'all triangulations, laminations and weights', 'No test covers the application code.',
     ['curver/application/main.py', 'curver/application/pieces.py', 'curver/application/vector.py'], [('layout', 'Drawing / create triangulation pieces'), ('strands', 'Drawing of laminations')], ['curver.application'])
prop('P29', 'Cayley exploration lists each group element once by a shortest word',
     'Exploring the Cayley graph up to a length yields the empty word first and then words over the given generators, no two of which denote the same mapping class. '
     'Every element expressible with at most that many of the generators is listed, by a word of minimal length. '
     'Words come out in non-decreasing length.',
     ['inputs', 'programs'], 'all sets of generators and lengths', 'Tests do not cover it.',
     [K + 'mappingclassgroup.py'], [('breadth-first search', 'MappingClassGroup.cayley')], ['cayley'])
prop('P30', 'Queries are pure: results never depend on what was asked before',
     'Calling any query on a triangulation, lamination, mapping or group never changes that object or any other: equality, hash, weights, pickles and later answers are as if the query had not been made. '
     'Asking the same question again, or asking questions in a different order, or on an equal but freshly built object, gives equal answers (including equal errors). '
     'Operations never alter their arguments.',
     ['histories'], 'all interleavings of queries on shared objects', 'Caching makes this a claim over histories; tests make one call per object.',
     [K + 'decorators.py', K + 'lamination.py', K + 'encoding.py', K + 'triangulation.py'], [('caches', 'memoize, set_cache, promote moving caches')], ['all public queries'])
prop('P31', 'Disjoint arc and triangulation enumerations are complete',
     'For a filling multiarc the listed disjoint arcs are arcs disjoint from it, include all arcs that are disjoint from it, and the listed multiarcs and triangulations are exactly the cliques and maximal cliques of pairwise disjoint ones. '
     'Exploring a ball of triangulations returns exactly the triangulations within that many flips of the chosen completion. '
     'Non-filling input is refused.',
     ['inputs'], 'all filling multiarcs on all surfaces and small radii', 'Tests do not check completeness.',
     [K + 'arc.py', K + 'triangulation.py'], [('enumeration', 'all_disjoint_arcs, all_disjoint_multiarcs, all_disjoint_triangulations, explore_ball, all_encodings')], ['all_disjoint_arcs', 'explore_ball'])
prop('P32', 'Curves and arcs built from edges and cut sequences are the intended ones',
     'The curve of an edge is the boundary of a neighbourhood of that edge (the one to the left of it, triangles being anticlockwise, when there are two), and the arc of an edge is that edge. '
     'The cut sequence of a curve or arc yields that curve or arc, and tracing along a lamination either returns the curve that closes up when it comes back to the starting edge, '
     'or reports an error exactly when it ends in a vertex, would have to cross itself or is too long. '
     'Subdividing triangles by 1-3 Pachner moves keeps the surface and adds punctures, carrying multicurves to multicurves component by component with the same intersection numbers, and its inverse carries them back.',
     ['inputs'], 'all edges of all triangulations, all cut sequences of curves, all laminations', 'Tests sample a few edges.',
     [K + 'triangulation.py', K + 'lamination.py'], [('edge curves', 'edge_curve, edge_arc'), ('cut sequences', 'curve_from_cut_sequence'), ('tracing', 'trace_curve'), ('pachner', 'encode_pachner_1_3')], ['edge_curve', 'edge_arc', 'trace_curve'])
prop('P90', 'Curve complex distances and geodesics are exact',
     'The distance between two curves in the curve complex is the length of a shortest path of successively disjoint curves, the geodesic returned realises it and is tight. '
     'Distances are invariant under mapping classes.',
     ['inputs'], 'all pairs of curves', 'Infeasible to execute beyond distance two: never terminates in practice on any surface.',
     [K + 'curvegraph.py'], [('tight geodesics', 'CurveGraph.tight_geodesic')], ['distance', 'geodesic'])
prop('P91', 'Nielsen-Thurston classification of infinite order classes is exact',
     'An infinite order mapping class is reported reducible exactly when some power fixes a multicurve and pseudo-Anosov otherwise, and its asymptotic translation length is positive exactly in the latter case.',
     ['inputs', 'programs'], 'all infinite order mapping classes', 'Infeasible to execute: relies on curve complex distances.',
     [K + 'encoding.py', K + 'curvegraph.py'], [('classification', 'is_reducible, asymptotic_translation_length')], ['nielsen_thurston_type'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
