"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S="flamingpy/codes/surface_code.py"; SG="flamingpy/codes/graphs/stabilizer_graph.py"; EG="flamingpy/codes/graphs/egraph.py"
DEC="flamingpy/decoders/decoder.py"; MW="flamingpy/decoders/mwpm/algos.py"; MA="flamingpy/decoders/mwpm/matching.py"; LE="flamingpy/decoders/mwpm/lemon.py"; CPP="flamingpy/cpp/lemonpy.cpp"
UF="flamingpy/decoders/unionfind/algos.py"; UC="flamingpy/decoders/unionfind/uf_classes.py"
CV="flamingpy/noise/cv.py"; IID="flamingpy/noise/iid.py"; GK="flamingpy/cv/gkp.py"; OPS="flamingpy/cv/ops.py"
LA="flamingpy/utils/linalg.py"; GS="flamingpy/utils/graph_states.py"; VZ="flamingpy/utils/viz.py"; SIM="flamingpy/simulations.py"; ST="flamingpy/codes/stabilizer.py"

prop("C01","Correction always clears the syndrome",
 "For every surface code (any dimensions of at least two, error complex, boundary choice and graph backend) and every pattern of qubit flips, one round of error correction with any decoder, matching backend and weight assignment finishes without an error and leaves every check of that complex with even parity. It flips only qubits that take part in the checks of that complex and returns a single truth value.",
 ["inputs","configurations"],
 "all flip patterns (hence all syndromes) on every code small enough to enumerate, all flip patterns of bounded weight on larger and elongated codes, all placements of heralded (swapped-out) qubits within the bound; every error complex, boundary, graph backend, decoder and matching backend",
 "The tests decode a handful of random noise samples on cubic codes of distance 2-4 and rarely look at the checks afterwards; a pattern of defects, heralded qubits or an aspect ratio that breaks the pairing, the cluster growth or the peeling is not sampled.",
 [DEC,MW,MA,UF,UC,SG],
 [("correction round: weights, decoder, recovery",DEC+": correct, recovery"),("pairing of odd checks through shortest paths and boundary points",MW+": mwpm_decoder; "+MA+": MatchingGraph.with_edges_from"),("cluster growth, spanning forest and peeling",UF+": union_find, obtain_spanning_forest, peeling")],
 [("bit_val","outcome bit of each qubit","code.graph node attribute")],["check parities and qubit bits after correct()"])

prop("C02","Matching decoder returns a minimum-weight recovery",
 "For every syndrome and every assignment of non-negative weights to the qubits (integer or fractional), the total weight of the qubits flipped by the minimum-weight matching decoder equals the smallest total weight of any set of flips that clears the syndrome, whichever matching backend or graph backend is used. This holds for every code in which any two checks share at most one qubit.",
 ["inputs","configurations"],
 "all syndromes of small codes and all syndromes with a bounded number of odd checks on larger ones, under uniform weights, every weight assignment over a small alphabet on a window of qubits, structured weight gradients, and the weights the package itself assigns from measurement outcomes; all graph and matching backends",
 "Tests compare total matching weights between backends on random samples only, with integer weights; they never compare with the true optimum, and a tie, boundary or path-length mistake shared by the backends goes unnoticed.",
 [MW,MA,LE,CPP,SG],
 [("shortest paths between odd checks and to the boundary",SG+": shortest_paths_*; "+MA),("perfect matching of least weight",MA+": min_weight_perfect_matching; "+LE+"; "+CPP)],None,["weight of the set of flipped qubits"])

prop("C03","Errors below half the code distance are always corrected",
 "Every set of flips smaller than half the code distance is corrected without a logical error by both decoders under uniform weights, where the distance is the length of the shortest undetectable chain that changes the logical state (the extent between the two open boundaries, or the smallest extent of a wrapped direction). For the union-find decoder, when some qubits are heralded as unreliable, every combination of flips confined to those qubits and flips elsewhere is corrected whenever the number of heralded qubits plus twice the number of other flips is less than the distance.",
 ["inputs","configurations"],
 "all flip sets within the guaranteed radius (and all heralded sets with all flip patterns on them) on cubic and elongated codes with distance up to the bound, both error complexes, every boundary choice, every graph and matching backend",
 "Tests run random noise and only look at aggregate success; the guarantee is about every low-weight pattern, including the few that sit at corners, boundaries and wrap-arounds.",
 [MW,MA,UF,UC,DEC,SG],
 [("minimum-weight recovery",MW),("half-edge growth of odd clusters, boundary merging, erasure seeding",UF+": initialize_cluster_trees, union_find; "+UC+": Support, Boundary"),("heralded qubits enter as erased edges",DEC+": assign_weights")],None,["value returned by correct()"])

prop("C04","Success verdict is exactly the absence of a logical error",
 "After any set of flips whose checks are all satisfied, the success verdict is true exactly when that set of flips is a product of lattice stabilizers, i.e. when it crosses every correlation surface of the code an even number of times. The parity of all parallel correlation surfaces agrees for every such set, and each set built from lattice stabilizers alone is judged a success.",
 ["inputs","configurations"],
 "all undetectable flip sets of codes small enough to enumerate, and a generating set with all combinations of up to two generators times all logical classes on larger ones; every error complex and boundary choice",
 "Tests check the verdict for clean codes and for a few hand-placed flips on cubic lattices; a wrong direction, wrong plane, or a plane missing a qubit is invisible unless the residual actually passes there, particularly on elongated codes.",
 [DEC,S],
 [("correlation-surface parity check",DEC+": check_correction"),("planes of syndrome qubits",EG+": slice_coords")],None,["check_correction result with and without its sanity check"])

prop("C05","Lattice and checks form a valid foliated surface code",
 "For all dimensions of at least two and each boundary choice, the generated lattice has exactly the sites and bonds of the Raussendorf lattice of that size, with the right primal and dual types, bond weights and wrap-around marks. The checks are exactly the complete and boundary-truncated cells of the chosen complex and each is a genuine stabilizer of the cluster state (every site is bonded to an even number of its qubits); each qubit is in at most two checks, in one only if it is a recorded point of one of the two open boundaries.",
 ["inputs","configurations"],
 "all dimension triples in a box and all boundary types per axis (for the lattice generator) and all error complex / boundary choices (for the code), with and without bond-weight functions",
 "Tests compare counts and a few coordinates for cubic codes and one or two sizes; mistakes that need unequal dimensions, mixed boundaries or a wrap-around cell are outside the sample.",
 [S,ST,EG],
 [("lattice generator",S+": RHG_graph"),("cell and boundary identification",S+": SurfaceCode.identify_stabilizers, identify_boundary"),],None,["SurfaceCode.graph, *_stabilizers, *_syndrome_coords, *_syndrome_inds, *_bound_points"])

prop("C06","Decoding graph mirrors the code in every backend",
 "For every code, the decoding graph has one node per check and per boundary point plus the two boundary connectors, and an edge exactly where two checks, or a check and a boundary point, share a qubit, labelled with a qubit they share and carrying that qubit's weight, while the edges to the connectors have weight zero and each connector is joined to the boundary points of its own side. Under every weight assignment the shortest-path queries of both backends return the true minimum distances and paths of the graph that realise them, paths between checks avoiding the connectors. Converting one backend to the other keeps nodes, edges, labels and weights.",
 ["inputs","configurations"],
 "all codes in a box of sizes, error complexes and boundaries; all sources; uniform weights, every 0/1/2/fractional assignment on a window of qubits and structured gradients",
 "Tests check agreement of the two backends on random weights for a few cubic codes; they would not notice both being wrong, a mislabelled shared qubit, or a path through a connector that needs particular weights.",
 [SG,ST],
 [("graph construction",SG+": StabilizerGraph.connect_nodes, add_*_bound_point"),("weights on edges",SG+": assign_weights"),("Dijkstra in both backends",SG+": shortest_paths_*")],None,["StabilizerGraph public queries"])

prop("C07","Matching backends find a minimum-weight perfect matching",
 "On every weighted complete graph with an even number of nodes, each matching backend returns a set of disjoint edges covering all nodes whose total weight is the minimum over all perfect matchings, and reports the total weight and stored path of the edges faithfully. An empty graph yields an empty matching. The matching graph of a syndrome joins any two odd checks by an edge whose weight is their shortest distance, and each to a boundary point of its own at the shortest distance to the boundary, and converting it between backends keeps every node, edge, weight, path and boundary point.",
 ["inputs"],
 "all complete graphs on 2 and 4 nodes over a weight alphabet, all 0/1 (and a base set of multi-valued) weight patterns on 6 nodes, block-structured families on 8 nodes, integer and fractional weights, all backends including the compiled one",
 "Tests use a few random graphs; blossom-type errors need odd-cycle weight patterns and ties that are only met by enumeration, and the compiled backend works in reduced precision.",
 [MA,LE,CPP],
 [("networkx / rustworkx / compiled matching",MA+"; "+LE+"; "+CPP)],None,["MatchingGraph.add_edge, min_weight_perfect_matching, total_weight_of, edge_path"])

prop("C08","A trial's outcome does not depend on earlier trials",
 "On one code object, after any history of noise applications (of layers of one kind), corrections with any decoder, weight assignments and drawings, the outcome of applying a given noise sample and correcting it (state labels, bits, weights, recovery, verdict) is the same as on a freshly built code with the same noise object settings. Decoding twice the same bits gives the same answer.",
 ["histories"],
 "all operation sequences up to the depth bound over noise layers (independent flips, continuous-variable, macronode), decoders, weight options and drawing, on small codes of each boundary type",
 "Tests build a new object for each case; Monte Carlo runs reuse one code and noise object for thousands of trials, so state left behind by one trial (labels, indices, weights, graph edits) is a systematic error no unit test meets.",
 [CV,IID,DEC,SG,MW,UF,VZ,SIM],
 [("noise object re-labels states at each application",CV+": populate_states"),("weights overwritten at each correction",DEC+": assign_weights"),("decoders leave the decoding graph unchanged",MW+", "+UF)],
 [("state/bit_val/weight/hom_val node attributes","per-trial data stored on the shared lattice","code.graph nodes")],["attributes and verdict after a history"])

prop("C09","Continuous-variable noise follows the model for any random draws",
 "Whatever values the random generator produces, the noise layer labels every qubit exactly once with a state (swapped-out qubits exactly those drawn or supplied, all others GKP), draws each quadrature with the standard deviation its state and the noise parameter dictate (zero for perfect qubits), and reports as outcomes the drawn quadratures propagated through the entangling bonds, in both sampling orders. The bit of every syndrome qubit is the translation of its own momentum outcome, also when the layer is applied repeatedly or a graph state is measured directly.",
 ["inputs","configurations","histories"],
 "all swap-out patterns on small codes and graphs (through supplied indices and through every value of the binomial / choice draws), unit-vector and combined quadrature draws (the map is linear, so unit draws decide it), both sampling orders, perfect qubits, custom translators, one to three applications",
 "Random tests check only means and variances loosely, on cubic codes, for one application; a wrong index, transposed block, or missing propagation in one sampling order averages out.",
 [CV,OPS,GK],
 [("state bookkeeping",CV+": populate_states"),("means and deviations",CV+": _means_sampler, _covs_sampler"),("entangle and read out",CV+": measure_hom"),("binning",CV+": inner_decoder")],
 [("states","index sets per state","CVLayer.states")],["calls made to the generator, node attributes, hom_outcomes, bit_values"])

prop("C10","Independent flip noise follows the given probability",
 "For every sequence of values the random generator may return, applying independent noise sets the bit of every qubit of the code, primal and dual, to 1 exactly when its own uniform draw is below the error probability, with one fresh draw per qubit and nothing else changed. Probability zero gives no flips, probability one flips everything, probabilities outside [0, 1] are rejected, and each application overwrites the previous one.",
 ["inputs","histories"],
 "all threshold outcomes (every subset of qubits drawn below the threshold) on small codes, boundary draws (equal to the probability, 0, just below 1), all probabilities on a grid including ends and invalid ones, repeated applications",
 "Tests look at the fraction of flips for random draws; off-by-one comparisons, skipped qubits or stale bits are not separated from statistics.",
 [IID],[("threshold sampling",IID+": IidNoise.apply_noise")],None,["bit_val of every node and number of draws"])

prop("C11","Macronode expansion preserves the graph state's structure",
 "Expanding any graph with integer coordinates, no isolated vertex and no two bonds leaving a vertex in the same direction gives a perfect pairing of micronodes in which each original bond becomes one bond between micronodes of its two ends, each original vertex owns exactly one micronode per incident bond (four on a padded boundary, the extra ones unbonded), micronodes round to their macronode's position, and all vertex, bond and graph attributes carry over, including the list of perfect qubits. Indexing the expansion numbers micronodes contiguously, macronode by macronode in sorted order; the original graph is left unchanged.",
 ["inputs","configurations"],
 "all codes in a box of sizes and boundaries (padded and unpadded), all small grid graphs with unit bonds, all subsets of perfect points on small graphs, several displacements",
 "Tests check sizes on a few graphs; which micronode a wrap-around or boundary bond lands on, padding of corners and edges and the perfect list are not covered for all shapes.",
 [EG],[("expansion",EG+": macronize"),("macronode-aware indexing",EG+": EGraph.index_generator")],None,["EGraph.macronize result, macro_to_micro, index dictionaries"])

prop("C12","Macronode reduction yields the right effective lattice data",
 "For every assignment of states to micronodes and every random draw, the macronode noise layer labels a reduced qubit GKP exactly when its macronode contains a GKP state, and gives every reduced qubit the bit and phase-error probability that the published reduction rules assign to the measured quadratures; probabilities lie in [0, 1/2]. With zero finite-squeezing noise the reduced bits satisfy every check that is not next to a wholly swapped-out macronode, and a supplied splitter network is the one used.",
 ["inputs","configurations"],
 "all swap-out counts and, on small graphs, all swap-out patterns of selected macronodes; all unit quadrature draws; padded and periodic codes; repeated applications",
 "The tests for this layer are mostly not collected; a sign or index error in the reduction, in padding or in star selection changes the physics silently.",
 [CV,OPS],
 [("star selection and permutation",CV+": CVMacroLayer._permute_star_inds"),("splitter network and measurement",CV+": _entangle_states, _measure_syndrome"),("reduction rules",CV+": _reduce_jth_macronode")],None,["bit_val, p_phase_cond, state of the reduced lattice"])

prop("C13","Graph-state edits keep indices and adjacency consistent",
 "After any sequence of indexing, adjacency requests (dense or sparse), qubit insertions, qubit removals and macronode edits, the index-to-point and point-to-index maps are inverse bijections over exactly the current qubits, the adjacency matrix is the one of the current graph in index order and in the requested form (sparse only when there is a qubit), and the macronode dictionary partitions the micronodes it owns. An edit that is refused with an error leaves the graph and its maps as they were.",
 ["histories"],
 "all operation sequences up to the depth bound on several small starting graphs (plain and macronized), including invalid requests",
 "Tests apply one or two edits to fixed graphs; interactions such as remove-then-index-then-adjacency or sparse-then-dense need sequences.",
 [EG,LA],
 [("caches and their invalidation",EG+": index_generator, adj_generator, add_qubit, remove_qubit")],
 [("to_indices/to_points/adj_mat/macro_to_micro","caches derived from the graph","EGraph")],["EGraph attributes after each operation"])

prop("C14","Local-Clifford equivalence is decided correctly",
 "Two graph states with the same number of qubits are reported equivalent exactly when one can be turned into the other by a sequence of local complementations, and graphs of different sizes or empty graphs are reported not equivalent. When equivalent, the returned operation, in either output form, is a valid local Clifford that maps the stabilizer group of the first graph state onto that of the second; the answer does not depend on previous adjacency requests and leaves the graphs unchanged.",
 ["inputs","histories"],
 "all ordered pairs of labelled graphs up to 4 qubits, all labelled 5-qubit graphs against representatives of every orbit, all unlabelled 6-qubit graphs against their orbits, all prior adjacency-request histories",
 "The tests try a few known pairs; equivalence is a statement about whole orbits, and the search over the solution space can miss solutions for particular graphs.",
 [LA,EG],
 [("constraint system and null space over GF(2)",LA+": lc_constraint_system, nullspace_basis"),("search for a valid solution",LA+": search_nullspace")],None,["EGraph.is_lc_equivalent"])

prop("C15","Graph-state menu produces the named graphs",
 "For every size n, the star, complete, linear and ring constructors return a graph on exactly n distinct qubits with the connectivity their name says (for the ring, n of at least three), the Bell pair is a single bond, and sizes that are not positive integers are rejected. The results are graph states whose adjacency can be indexed.",
 ["inputs"],"all sizes up to the bound for each constructor, invalid sizes and types",
 "Tests try a few sizes; coordinates are rounded floats used as identities, so two qubits may coincide or one may split in two at particular sizes.",
 [GS],[("coordinate-keyed construction",GS)],None,["returned EGraph"])

prop("C16","GKP binning and error probabilities are consistent",
 "Every real outcome splits into the nearest integer multiple of the bin width and a remainder of at most half the width that add up to it, its bit is the parity of that integer (away from the bin edges themselves, bins are periodic in two widths and symmetric), and scalars and arrays agree element by element. Phase-error probabilities, conditional or not, lie in [0, 1], agree with the exact periodic Gaussian sums for every variance and outcome in the supported range, and are the same whether computed one at a time or as a batch.",
 ["inputs"],
 "all points of a dense grid of outcomes across many bins and near every bin edge, times a grid of variances, both conditioning modes, all scalar/array/list shapes, truncation orders and undefined-value options",
 "Tests evaluate a few points and shapes; the formulas are periodic and truncated so their errors appear only at particular outcomes (far bins, edges) and variances.",
 [GK],[("integer/fraction split and parity",GK+": integer_fractional, GKP_binner"),("truncated periodic sums",GK+": Z_err, Z_err_cond")],None,["function results"])

prop("C17","Entangling and splitter transformations are correct symplectic maps",
 "For every weighted adjacency matrix, dense or sparse of any kind, the CZ map is the symplectic matrix adding to each momentum the bond-weighted sum of neighbouring positions, and applying it to vectors or covariance matrices gives the same result as multiplying by that matrix in every evaluation mode, without modifying its inputs and returning the dense or sparse form requested. Inverting a permutation undoes it, and the four-splitter network is an orthogonal symplectic map, block-repeated for larger mode numbers.",
 ["inputs"],
 "all graphs on up to 4 or 5 modes with bond weights in {-1,0,1}, all unit vectors and matrix units (the maps are linear), all permutations up to size 6 or 7, all input container types",
 "Tests use a few random matrices in one container; transposition or ordering errors vanish on symmetric or unit-weight samples.",
 [OPS],[("symplectic construction and block application",OPS)],None,["function results"])

prop("C18","Decoder weights follow the stated rules for every configuration",
 "For every combination of neighbouring states, outcomes and options, weight assignment gives each syndrome qubit exactly the stated weight: one (matching) or two (union-find) in the uniform method, the erasure mark for union-find when at least two neighbours are swapped out, and in the analog method minus the logarithm of the error probability belonging to its neighbourhood, scaled and rounded when integers are asked for. Weights are finite and non-negative except the erasure mark, every edge of the decoding graph carries its qubit's weight, and union-find refuses the analog method rather than ignoring it.",
 ["inputs","configurations"],
 "all neighbourhood state patterns of every syndrome qubit on small codes (corner, edge, bulk), outcome grid incl. zero-probability and bin-edge values, noise parameters, precomputed probabilities incl. 0 and above 1/2, all integer/multiplier options, both decoders and graph backends",
 "Tests check types and a few formulas for one random sample; boundary qubits with fewer neighbours and rare swap-out counts have their own branches.",
 [DEC,SG,GK],[("weight rules",DEC+": assign_weights")],
 None,["weight of nodes and of decoding-graph edges"])

prop("C19","Monte Carlo error count is exact for any work partition",
 "For any number of trials, any number of processes and any pattern of trial outcomes, the reported number of errors is the number of failed trials: every trial index is run exactly once by exactly one process, with a random stream that differs between processes, and the totals are combined once. Each trial is a fresh noise sample followed by one correction with the requested decoder and options.",
 ["inputs","schedules","configurations"],
 "all trial counts and process counts within bounds, all success/failure patterns within bounds, every order in which the simulated processes run; all decoder and option combinations",
 "MPI is absent in the test environment and tests run only one process with random outcomes; partition and reduction errors need several ranks or specific failure patterns.",
 [SIM],[("strided partition and reduction",SIM+": ec_monte_carlo"),("one trial",SIM+": ec_mc_trial")],None,["return value, calls made to the noise, decoder and communicator"])

prop("C20","Simulation results file stays complete and well-formed",
 "Every completed simulation run appends exactly one record to the results file (creating the file with one header when absent, and its folder for the default location), in which each column of the header holds the value that was used, including tuples and nested options, so that a CSV reader recovers them (for runs that give the same set of setting names). Records written before are never altered, whatever sequence of runs, interruptions or write failures happens, and no file is written by processes other than the first.",
 ["histories","crash_points","inputs"],
 "all run sequences up to the depth bound over code, noise and decoder settings and file states (absent, header only, with records), a failure injected at every write/open/close, every process rank",
 "The tests look at one row in one configuration; quoting, header/row alignment, appends and partial writes need sequences and faults.",
 [SIM],[("results writer",SIM+": run_ec_simulation")],[("results file","CSV header and records","file system")],["the file's bytes and their CSV parse"])

prop("C21","Results are reproducible from the seed alone",
 "Given the same inputs and random seed, noise, weights, recovery and verdict are identical in every process, whatever the memory layout, string hash seed or internal iteration order of unordered collections.",
 ["schedules","configurations","inputs"],
 "all syndromes (and heralded sets) of small codes and bounded-weight ones of larger codes, under all enumerated orders of the identity hashes that order unordered collections, every decoder and backend",
 "Tests run in one process with one hash seed; iteration order of sets of objects depends on memory addresses, so a tie broken by set order shows up only across processes.",
 [UF,UC,MA,MW,S,SG],
 [("deterministic choice of boundary vertex and traversal order",UF+": obtain_spanning_forest"),("list conversions of sets",S+": set_ec_stabilizers_and_syndrome")],None,["recovery sets and verdicts across permuted hash orders and processes"])

prop("C22","Drawing and inspection never change the object shown",
 "Drawing a graph state, adjacency or symplectic matrix, decoding graph, matching graph, syndrome or a whole decoding run with any option and backend leaves the graph, code, decoding graph, weights, bits and decoder results exactly as they were, and shows every qubit, bond, check parity and recovery element in its place with the requested colours and labels. Plots of GKP quantities have ticks exactly at the multiples of the bin width. Axis labels of multiples of half the square root of pi state that multiple exactly; other values are printed with the number of decimals asked for.",
 ["inputs","histories","configurations"],
 "all combinations of drawing options over their documented values, on codes of each boundary type and on graphs with attributes; all draws before/after each step of a decoding run; all multiples of half the square root of pi in a range, and a grid of other values, for the labels",
 "Tests only check that drawing runs; that it is free of side effects and complete is a statement about all options and later use of the drawn object.",
 [VZ,EG,SG,MA,CV],
 [("drawing on graph objects",VZ+": draw_EGraph, draw_dec_graph, syndrome_plot, draw_decoding"),("pi labels",VZ+": to_pi_string")],None,["snapshots before and after, artists in the figure"])

prop("C23","Union-find clusters track size, parity and boundary exactly",
 "After any sequence of cluster unions and finds, each element has exactly one cluster whose size, parity and boundary membership are those of the set of elements merged so far, finding is idempotent and never changes a cluster, and the element tree stays acyclic with consistent parent and child links. Edges grow from empty through half-grown to grown exactly once, and the spanning forest of the grown edges is acyclic and connects exactly the grown components.",
 ["histories"],
 "all sequences of unions and finds up to the bound on up to five elements with every parity/boundary labelling; all growth sequences on all small graphs",
 "Tests check single unions on small hand-made trees; path compression and union-by-size only interact over longer sequences.",
 [UC,UF],[("trees with path compression and weighted union",UC+": Node, Root; "+UF+": union"),("support table and forest",UC+": Support")],
 [("parent/children/size/parity/boundary","cluster trees","Node, Root")],["find_root, size, parity, children, Support.status, span_forest"])

prop("C24","Operations on different objects do not influence one another",
 "Operations on codes, noise layers, decoders, matching graphs, graph states and drawings give the same results however they are interleaved, in one process, with operations on other objects that share no code or graph with them: objects of the same or another configuration, given the same or other arguments, created before, between or after, in use or already deleted. Arguments that several objects share are not modified.",
 ["histories","schedules"],
 "all interleavings of the steps of every pair of 25 pipelines (codes and decoding on every backend, noise layers, matching graphs, splitting and reduction, graph states, drawings, binning), all positions at which one of them is deleted, triples of pipelines, and a complete run of one pipeline placed inside the first and last execution of every line of the other; references computed by each pipeline alone in a process of its own",
 "Tests build one object, use it and drop it; module-level or class-level state, mutable default arguments, and caches keyed by identity or by too few parameters only show when a second object, of another configuration, is used in between.",
 [S,SG,EG,DEC,MW,MA,UF,UC,CV,IID,GK,OPS,GS,VZ],
 [("default arguments and class attributes","throughout; e.g. "+MA+": add_edge"),("caches of distances, matrices and states",SG+"; "+EG+"; "+CV)],
 None,["results of every step of every pipeline, and the arguments after it"])

prop("C25","Binary linear algebra is exact on every matrix",
 "For every binary matrix, the reduced form is row-equivalent to it, is in reduced echelon form up to the requested column, and its rank is reported; the kernel basis is a basis of exactly the kernel. The constraint system of two graphs is satisfied by a vector that meets the determinant condition exactly when the local Clifford that the vector describes maps one graph state to the other. The search returns a vector of the span that meets the determinant condition whenever there is one (for up to four basis vectors, or connected graphs). Both output forms hold the entries of the vector in their places. Inputs are left unchanged.",
 ["inputs"],
 "all binary matrices within the size bounds, all requested columns, all pairs of graphs on few nodes with all vectors, all small spans",
 "Tests reduce two hand-written matrices and random square ones; rank-deficient, wide, tall and zero matrices with pivots in particular places are met only by enumeration.",
 [LA],
 [("Gaussian elimination and kernel over GF(2)",LA+": reduce_RREform_mod2, nullspace_basis"),("local Clifford search",LA+": lc_constraint_system, search_nullspace, clifford_vec_to_tensors, clifford_vec_to_global")],None,["return values of these functions"])

prop("C26","Equivalent requests give the same result, invalid ones are refused",
 "Codes, lattices, noise layers, corrections, simulation trials and graph operations give the same result whichever equivalent form the request takes: dimensions as an integer, tuple, list or array; boundary names or triples; arguments by position, by keyword, or left at their default; index lists of any sequence type; options given explicitly with their default values; the separate steps instead of the whole; the method or the function. The lattice, extents and decoding graph of a code do not change when the caller later changes the list of dimensions he passed. Invalid requests (dimensions that are not one or three integers, unknown complexes, boundaries, graph or drawing back ends, decoders, matching back ends and slice planes, swap-out probabilities outside [0, 1], swapped-out qubits that do not exist or come with a swap-out probability, analog weights for union-find, graph sizes below one, fewer than four modes) raise an error and leave lattices and measured bits as they were. A slice of the lattice holds exactly the qubits with that coordinate.",
 ["inputs","configurations"],
 "all forms of every argument on codes of every complex, boundary and backend, all 27 boundary triples, all corrections of flip patterns within the bound by all forms of the call, and all invalid values of a table alone and combined with valid and invalid others",
 "Tests use one form of each call with one configuration; a default that drifts, an option that is ignored, or a missing validation shows only when the forms are compared across configurations.",
 [S,SG,EG,DEC,CV,IID,OPS,GS,LA,SIM],
 [("argument handling","constructors and functions of the listed files")],None,["objects built, outcomes, errors raised"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
