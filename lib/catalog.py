"""The properties: text, anchors. mkmanifest.py turns this into properties.jsonl and MANIFEST.json."""
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None))
D = "library/datastructure/"
ST = D + "segment_tree/"
FT = D + "fenwick_tree/"
BB = D + "bbst/"
UF = D + "union_find/"
NOTEST = "None of the 23 stable tests runs this code against an oracle (the judge-fed programs are only compiled); "
SOME = "The self-checking tests that exist sample a few random histories of some of these classes; "
LIST = [
P("C01", "Segment trees return the exact ordered fold of the current array",
  "After any history of point writes, point or range actions and queries, every range, prefix, suffix and whole-array product of the segment trees (plain, lazy, dual, sparse, sparse lazy, coordinate-compressed, 2-D, beats) and of the sparse table equals the left-to-right product of the current elements, point reads return the current element, and monotone searches return the exact boundary. This holds for non-commutative products and non-commuting actions, for every length (including lengths that are not powers of two and huge sparse index ranges), and empty ranges give the identity.",
  ["histories", "inputs"], "all update/query histories, lengths, ranges, monoids and actions",
  NOTEST + "stale lazy tags or boundary nodes need particular interleavings of updates and queries at particular lengths.",
  [ST + x for x in ("segment_tree.hpp", "lazy_segment_tree.hpp", "dual_segment_tree.hpp", "commutative_dual_segment_tree.hpp", "compressed_segment_tree.hpp", "sparse_segment_tree.hpp", "sparse_lazy_segment_tree.hpp", "segment_tree_2d.hpp", "segment_tree_2d_sparse.hpp", "segment_tree_beats.hpp")] + [D + "sparse_table.hpp", "library/range_query/range_chmin_chmax_add_range_sum.hpp", "library/util/update_proxy_object.hpp"],
  [("lazy tag pushed before descent, folds recomputed on the way up", ST + "lazy_segment_tree.hpp"), ("bottom-up left/right accumulators keep order", ST + "segment_tree.hpp")],
  [("data/lazy", "node folds and pending actions", ST + "lazy_segment_tree.hpp")], ["return values of get/prod/max_right/min_left"]),
P("C02", "Prefix, range and rectangle sums equal the sum of the current points",
  "After any history of point or rectangle additions, every interval, prefix, rectangle, cube, band and strided sum (or prefix min/max fold) returned by the Fenwick trees, the 2-D and sparse Fenwick trees, the coordinate-compressed trees, the offline and online rectangle-add structures and the 1-D to 3-D cumulative sums equals the value computed from the current contents. This includes empty and full ranges, negative and huge sparse coordinates, growing sequences and element proxies with compound assignment.",
  ["histories", "inputs"], "all update/query histories, sizes, coordinates and values",
  NOTEST + "a lost update shows only for particular positions relative to the powers of two or to other registered coordinates.",
  [FT + x for x in ("fenwick_tree.hpp", "fenwick_tree_2d.hpp", "fenwick_tree_2d_sparse.hpp", "fenwick_tree_prefix.hpp", "compressed_fenwick_tree.hpp", "compressed_fenwick_tree_prefix.hpp", "offline_rectangle_add_point_get.hpp", "rectangle_add_rectangle_sum.hpp", "static_rectangle_add_rectangle_sum.hpp")] + ["library/util/cumulative_sum.hpp", "library/util/cumulative_sum_2d.hpp", "library/util/step_sum.hpp"],
  [("lowest-set-bit walk", FT + "fenwick_tree.hpp"), ("coordinate registration and compression", FT + "fenwick_tree_2d_sparse.hpp")],
  [("data", "partial sums", FT + "fenwick_tree.hpp")], ["return values of sum/get"]),
P("C03", "Persistent structures never change an existing version",
  "Every update of a persistent array, segment tree (plain, lazy, dual), Fenwick tree, union-find or red-black-tree sequence produces a version with exactly the described contents, and every version ever made keeps answering reads, products, searches, dumps and splits exactly as when it was made. This holds whichever versions are updated or merged later, including a version merged with itself.",
  ["histories"], "all version trees: any version may be updated, merged with any other, or queried at any later time",
  "Two self-checking tests sample random histories of two of the segment trees; sharing bugs need an old version to be re-read after a particular later update touched a shared node.",
  [D + "persistent_array.hpp", ST + "persistent_segment_tree.hpp", ST + "persistent_lazy_segment_tree.hpp", ST + "persistent_dual_segment_tree.hpp", ST + "persistent_commutative_dual_segment_tree.hpp", FT + "persistent_fenwick_tree.hpp", UF + "persistent_union_find.hpp", BB + "persistent_red_black_tree.hpp", BB + "persistent_red_black_segment_tree.hpp", BB + "persistent_red_black_lazy_segment_tree.hpp", BB + "persistent_red_black_reversible_lazy_segment_tree.hpp", BB + "persistent_red_black_tree_base.hpp", "library/util/object_pool.hpp"],
  [("path copying before every write", ST + "persistent_segment_tree.hpp"), ("node pool", "library/util/object_pool.hpp")],
  [("roots", "one root per version", ST + "persistent_segment_tree.hpp")], ["reads of every version after every update"]),
P("C04", "Dynamic sequences behave as one editable array under every edit",
  "After any history of inserts, erases, splits, concatenations, rotations, reversals, sorts, point writes and range actions, the balanced-tree sequences (implicit treaps, reversible treaps with products and actions, red-black trees, splay-tree dynamic sequences, sortable segment tree) hold exactly the elements, in exactly the order, that the same edits give on a plain array; reads, range products (also of non-commutative operations on reversed ranges), searches, dumps and sizes agree with that array, and every element inserted is neither lost nor duplicated.",
  ["histories"], "all edit/query histories, all positions and ranges including empty and whole ones",
  NOTEST + "pending reversals and actions meet splits and merges only in particular orders of edits.",
  [BB + x for x in ("implicit_treap.hpp", "implicit_treap_segtree.hpp", "reversible_implicit_treap.hpp", "reversible_implicit_treap_dual_segtree.hpp", "reversible_implicit_treap_segtree.hpp", "reversible_implicit_treap_lazy_segtree.hpp", "red_black_tree.hpp", "red_black_segment_tree.hpp", "red_black_lazy_segment_tree.hpp", "red_black_reversible_lazy_segment_tree.hpp")] + [D + "dynamic_sequence.hpp", D + "range_foldable_dynamic_sequence.hpp", D + "lazy_eval_dynamic_sequence.hpp", ST + "sortable_segment_tree.hpp"],
  [("split/merge with pending flags pushed down", BB + "reversible_implicit_treap_lazy_segtree.hpp"), ("splay to root, update on the way", D + "dynamic_sequence.hpp")],
  [("tree", "in-order sequence of elements", BB + "implicit_treap.hpp")], ["return values of get/prod/dump/binary searches after every edit"]),
P("C05", "Ordered maps and sets answer exactly as a sorted dictionary",
  "After any history of insertions, overwrites, erasures by key or index, merges, splits and range operations, the splay-tree maps and sets (plain, range-foldable, lazily evaluated), the Fenwick-tree set, the range set and the range composite contain exactly the keys and values implied by the history; order statistics, bounds, neighbours, k-th elements, ranges, mex, folds over key ranges and interval membership agree with the sorted contents, including when empty or at the extremes of the key range.",
  ["histories"], "all update/query histories and key sets",
  NOTEST + "splaying and interval splitting go wrong only at particular boundaries between neighbouring keys.",
  [D + "splay_tree_map.hpp", D + "splay_tree_set.hpp", D + "range_foldable_map.hpp", D + "lazy_eval_map.hpp", FT + "fenwick_tree_set.hpp", D + "util/range_set.hpp", "library/range_query/range_set_range_composite.hpp"],
  [("splay and split by key", D + "splay_tree_map.hpp"), ("interval map of maximal ranges", D + "util/range_set.hpp")],
  [("root", "sorted dictionary", D + "splay_tree_map.hpp")], ["return values of get/contains/lower_bound/kth/sum"]),
P("C06", "Union-find structures maintain exactly the merged partition",
  "After any history of merges, undos, snapshots and rollbacks, same/root/size/groups of every union-find (plain, lazy, linked, weighted, component-sum, undoable, merge-history forest) describe exactly the finest partition containing the merges still in force; merge reports whether it joined two classes, component data are the combination over the class, and weighted differences and merge times equal those implied by the merges.",
  ["histories"], "all merge/undo/query histories",
  NOTEST + "path compression, union by size and undo interact only in particular orders of merges.",
  [UF + x for x in ("union_find.hpp", "union_find_lazy.hpp", "union_find_component_sum.hpp", "linked_union_find.hpp", "weighted_union_find.hpp", "undo_union_find.hpp", "undo_union_find_component_sum.hpp", "merge_history_forest.hpp")],
  [("path compression, union by size", UF + "union_find.hpp"), ("history stack", UF + "undo_union_find.hpp")],
  [("data", "parent or minus size", UF + "union_find.hpp")], ["return values of merge/same/size/groups/diff"]),
P("C07", "Queues, heaps and windows always expose the right element or fold",
  "After any history of pushes, pops and updates, the binary and interval heaps and double-ended priority queue return the true minimum and maximum of what they contain (under any comparator), the k-smallest-sum structure returns the sum of exactly the k best elements, the aggregating queue and deque return the ordered fold of their contents, sliding windows return the position of the extreme element of the current window, and the Cartesian tree is the tree whose in-order is the array and whose ancestors dominate.",
  ["histories", "inputs"], "all push/pop histories, comparators and arrays, including emptying and refilling",
  NOTEST + "two-stack rebalancing and sift paths depend on particular sequences of pushes and pops from both ends.",
  [D + "heap/binary_heap.hpp", D + "heap/interval_heap.hpp", D + "double_ended_priority_queue.hpp", D + "priority_queue.hpp", D + "util/priority_sum.hpp", D + "queue_aggregation.hpp", D + "deque_aggregation.hpp", D + "sliding_window_minimum.hpp", D + "cartesian_tree.hpp"],
  [("two stacks of partial folds", D + "deque_aggregation.hpp"), ("min/max pairs per node", D + "heap/interval_heap.hpp")],
  [("heap", "multiset of elements", D + "heap/interval_heap.hpp")], ["return values of top/min/max/prod/sum"]),
P("C08", "Line containers and slope trick give the exact envelope value",
  "The convex hull tricks (dynamic, monotone, Li Chao with lines and segments, offline dynamic hull) return, for every query point, exactly the minimum (or maximum) over the lines added and still present; SlopeTrick holds exactly the convex function obtained by the operations performed, with its minimum, minimisers and slopes; monotone minima returns the leftmost minimum of each row of every totally monotone matrix.",
  ["histories", "inputs"], "all orders of additions (also duplicates, parallel lines, ties) and all query points of the domain",
  NOTEST + "a hull drops a needed line only for particular slopes and near-concurrent intersections.",
  [D + "convex_hull_trick.hpp", D + "monotonic_convex_hull_trick.hpp", ST + "li_chao_segment_tree.hpp", D + "slope_trick.hpp", "library/algorithm/dynamic_convex_hull_offline.hpp", "library/algorithm/monotone_minima.hpp"],
  [("intersection comparison decides which lines stay", D + "convex_hull_trick.hpp"), ("two heaps of breakpoints with lazy shifts", D + "slope_trick.hpp")],
  [("lines", "the envelope", D + "convex_hull_trick.hpp")], ["return values of query/min/argmin"]),
P("C09", "Bit-level structures answer exactly as the bits and integers they store",
  "Dynamic and static bitsets equal the mathematical bit string after any history of bit writes, shifts, logical operations, range operations and resizes (no bit beyond the length ever becomes visible); the bit vector and the wavelet matrices (plain and compressed) return exact access, rank, select, quantile, frequency and neighbour queries on every range and for every value of the type, including the extremes; the binary tries (plain and Patricia) return exact counts, k-th, minimum, maximum and bound queries under every xor mask after any insertions and deletions; bit utilities equal their definitions for every width.",
  ["histories", "inputs"], "all update/query histories, lengths (word boundaries included), values up to the full width of the type",
  NOTEST + "errors hide at word boundaries, at full-width values and after particular deletions.",
  [D + "util/dynamic_bitset.hpp", D + "util/static_bitset.hpp", D + "bit_vector.hpp", D + "wavelet_matrix.hpp", D + "compressed_wavelet_matrix.hpp", D + "binary_trie.hpp", D + "binary_trie_patricia.hpp", "library/util/bit_utils.hpp"],
  [("rank blocks of 64-bit words", D + "bit_vector.hpp"), ("bit-by-bit descent with xor", D + "binary_trie.hpp")],
  [("bits", "words with a trimmed tail", D + "util/dynamic_bitset.hpp")], ["return values of queries and dumps"]),
P("C12", "Link-cut trees maintain exactly the current rooted forest",
  "After any history of link, cut (by child or by edge), evert, value writes and path actions, the link-cut trees (plain, path-foldable, lazily path-foldable) report connectivity, lowest common ancestors, root paths and u-v paths of exactly the forest implied by the history with the roots implied by the everts performed; path products are the ordered (non-commutative) product of the current values along the path in the direction asked, and a path action changes exactly the vertices of that path.",
  ["histories"], "all histories of link/cut/evert/update/query on all forests",
  NOTEST + "a lost reversal or pending action needs a particular sequence of everts, exposes and cuts.",
  ["library/tree/link_cut_tree_base.hpp", "library/tree/link_cut_tree.hpp", "library/tree/link_cut_tree_path_foldable.hpp", "library/tree/link_cut_tree_path_foldable_lazy.hpp"],
  [("expose and splay with pending reversal", "library/tree/link_cut_tree_base.hpp"), ("pending action pushed before rotation", "library/tree/link_cut_tree_path_foldable_lazy.hpp")],
  [("_p/_ch", "preferred-path splay trees", "library/tree/link_cut_tree_base.hpp")], ["return values of is_connected/lca/path/prod/get"]),
P("C13", "Static tree queries equal the definition on every tree",
  "For every tree (and forest, where accepted), root and arguments: heavy-light decomposition, Euler tour, LCA and level-ancestor structures return the true ancestors, distances, jumps, subtree intervals and decompositions of paths into ranges that cover each path vertex (or edge) exactly once and, for non-commutative folds, in path order; the auxiliary tree is the lca-closure of the chosen vertices with nearest-ancestor edges; centroid decomposition splits every component at a true centroid and collects each component with the right distances; centroids, tree paths and distance frequency tables are exact; tree isomorphism ids are equal exactly for isomorphic (sub)trees, and a reported isomorphism names roots that really correspond.",
  ["inputs"], "all trees, roots, vertices and vertex subsets",
  NOTEST + "wrong answers appear only on particular shapes (paths, stars, two centroids, single vertices).",
  ["library/tree/" + x for x in ("heavy_light_decomposition.hpp", "euler_tour.hpp", "lowest_common_ancestor.hpp", "level_ancestor.hpp", "get_path.hpp", "auxiliary_tree.hpp", "centroid_decomposition.hpp", "find_centroid.hpp", "frequency_table_of_tree_distance.hpp", "tree_isomorphism_classification.hpp")],
  [("heavy child first in preorder", "library/tree/heavy_light_decomposition.hpp"), ("stack of the current lca chain", "library/tree/auxiliary_tree.hpp")],
  [("visit/leave/head", "preorder numbering and path heads", "library/tree/heavy_light_decomposition.hpp")], ["return values of the queries"]),
P("C14", "Tree aggregations equal brute-force aggregation",
  "For every tree, the contour structures (static and with point or range-of-distance updates, over groups and over mere commutative monoids) return, after any history of updates, exactly the aggregate of the current values of the vertices whose distance from u lies in [dl, dr), and apply updates to exactly those vertices; re-rooting DP returns for every vertex the value of the DP computed with that vertex as root, for every combination of vertex and edge weights; the static top tree returns the tree DP of the current weights after every point update.",
  ["histories", "inputs"], "all trees, update histories, vertices and distance bands (also empty, negative and beyond the diameter)",
  NOTEST + "centroid-based sums double count or miss vertices only for particular centroid layouts.",
  ["library/tree/" + x for x in ("contour_sum.hpp", "range_contour_sum_invertible.hpp", "point_add_range_contour_sum.hpp", "point_add_range_contour_sum_invertible.hpp", "point_set_range_contour_sum.hpp", "point_get_range_contour_add_invertible.hpp", "point_get_range_contour_operate.hpp", "rerooting.hpp", "rerooting_invertible.hpp", "static_top_tree.hpp")],
  [("binarised centroid decomposition with per-depth sums", "library/tree/contour_sum.hpp"), ("prefix/suffix products of children", "library/tree/rerooting.hpp")],
  [("_subtrees", "per centroid child, sums by depth", "library/tree/contour_sum.hpp")], ["return values of sum/get/run_dp/answer"]),
P("C15", "Shortest paths and reachability are exact on every graph",
  "For every graph (with loops, parallel edges, zero-weight cycles and unreachable parts), source set and weights: breadth-first search, 0-1 BFS (indexed and keyed by arbitrary nodes), BFS in the complement graph, Dijkstra and single-source shortest paths in a DAG (negative weights allowed) return exactly the least walk weight or report unreachability; reconstructed paths are real shortest paths; connected components (also of the complement) partition the vertices correctly; the bottleneck all-pairs table holds the best worst edge for every ordered pair under the given comparator; and the segment-tree graph makes an edge to a segment reach exactly the elements of that segment of that order.",
  ["inputs", "histories"], "all graphs, sources, weights, comparators, permutations and segments",
  NOTEST + "errors hide in ties, zero-weight cycles, multi-source starts and word-boundary sizes.",
  ["library/graph/" + x for x in ("bfs.hpp", "bfs01.hpp", "bfs_complement.hpp", "dijkstra.hpp", "minmax_floyd_warshall.hpp", "single_source_shortest_path_dag.hpp", "segment_tree_graph.hpp")],
  [("stale queue entries are skipped", "library/graph/dijkstra.hpp"), ("bitset closure updated edge by edge", "library/graph/minmax_floyd_warshall.hpp")],
  [("_dist/_par", "tentative distances and predecessors", "library/graph/dijkstra.hpp")], ["return values of distance, operator[], path_to"]),
P("C16", "Graph structure queries return the true structure",
  "For every graph and history of edge insertions and rebuilds: low-link returns exactly the bridges, articulation points and component counts after removals; two-edge-connected components, biconnected components and the block-cut forest are the true decompositions; topological sort, SCCs of a tournament, cycle detection, bipartiteness, triangle and clique enumeration are exact and list each object once; Eulerian circuits and trails exist exactly when reported, use each edge once, and asking leaves the graph unchanged; functional-graph iteration, doubling, sums and binary searches agree with walking step by step for any number of steps up to the limit; tree decompositions exist exactly for treewidth at most 2, are valid and nice, and dynamic programmes run over them give the true count; compressed adjacency lists behave like vectors, and depth-first trees are genuine, also on copied and moved graphs.",
  ["inputs", "histories"], "all graphs, insertion histories, step counts up to 2^63-1",
  NOTEST + "wrong answers need particular cycles, multi-edges, rebuilds or copies.",
  ["library/graph/" + x for x in ("low_link.hpp", "two_edge_connected_components.hpp", "biconnected_components.hpp", "block_cut_forest.hpp", "topological_sort.hpp", "scc_tournament.hpp", "cycle_detection.hpp", "functional_graph.hpp", "bipartite_graph_recognition.hpp", "enumerate_triangles.hpp", "enumerate_cliques.hpp", "directed_eulerian_graph.hpp", "undirected_eulerian_graph.hpp", "tree_decomposition_tw2.hpp", "tree_decomposition_tw2_dp.hpp", "remove_multiedges.hpp", "csr_graph.hpp")],
  [("low-link values from one depth-first search", "library/graph/low_link.hpp"), ("adjacency list keeps a pointer to its graph", "library/graph/csr_graph.hpp")],
  [("_pre_order/_low_link", "DFS numbering", "library/graph/low_link.hpp")], ["return values of the queries"]),
P("C17", "Combinatorial optimisers return feasible and optimal answers",
  "For every instance: bipartite matching (also after further edges are added), minimum edge cover, minimum vertex cover and maximum independent set in bipartite graphs, the Dulmage-Mendelsohn decomposition, proper edge colouring with max-degree colours, chromatic number, maximum clique, maximum independent set and minimum vertex cover, minimum spanning forests and Manhattan spanning trees and nearest distances (also with repeated points and negative coordinates of any number type), minimum-cost flow (limited, maximum and arbitrary amount, its slope, and the reported flow on each edge, loops included), the assignment problem, (k-)project selection and Lagrangian (Alien) search return a solution that satisfies the constraints and attains the optimum value.",
  ["inputs", "histories"], "all graphs, capacities, costs (negative where accepted) and cost tables",
  NOTEST + "an answer that is feasible but one short of optimal shows only on particular instances.",
  ["library/graph/" + x for x in ("bipartite_matching.hpp", "dulmage_mendelsohn_decomposition.hpp", "edge_coloring_of_bipartite_graph.hpp", "chromatic_number.hpp", "maximum_clique.hpp", "maximum_independent_set.hpp", "minimum_vertex_cover.hpp", "min_cost_flow.hpp", "assignment_problem.hpp", "kruscal.hpp", "manhattan_mst.hpp", "manhattan_minimum_distances.hpp")] + ["library/optimization/project_selection_problem.hpp", "library/optimization/k_project_selection_problem.hpp", "library/optimization/alien_dp.hpp"],
  [("shortest augmenting paths with potentials", "library/graph/min_cost_flow.hpp"), ("alternating level graph from the right side", "library/graph/bipartite_matching.hpp")],
  [("_to_r/_to_l", "current matching", "library/graph/bipartite_matching.hpp")], ["return values of the solvers, get_edges, get_mst"]),
P("C18", "String structures agree with the definitions on the string itself",
  "For every string (empty, periodic, unary, any alphabet): Morris-Pratt borders, periods and pattern occurrences, Manacher radii, the complete list of runs, lcp/comparison of any two substrings, Aho-Corasick match counts after any history of additions and rebuilds, trie membership, palindromic trees (nodes, links, occurrence counts) after any history of appends and clears, suffix automaton and substring-set queries (occurrences, k-th substring, rank, longest common substring) and rolling hashes (equal substrings always hash equal, also across objects, concatenation and point updates) agree with the definitions on the string itself.",
  ["inputs", "histories"], "all strings over all alphabets, all histories of appends, additions and rebuilds",
  NOTEST + "errors sit at borders: overlapping periods, whole-string matches, empty strings, repeated building.",
  ["library/string/" + x for x in ("aho_corasick.hpp", "aho_corasick_array.hpp", "compare_substring.hpp", "dynamic_rolling_hash.hpp", "manacher.hpp", "morris_pratt.hpp", "palindromic_tree.hpp", "rolling_hash.hpp", "rolling_hash_field.hpp", "run_enumerate.hpp", "substring_set.hpp", "suffix_automaton.hpp", "trie_array.hpp", "trie_map.hpp")],
  [("failure links over a trie", "library/string/aho_corasick.hpp"), ("suffix links of palindromes", "library/string/palindromic_tree.hpp")],
  [("_nodes", "automaton states", "library/string/suffix_automaton.hpp")], ["return values of the queries"]),
P("C19", "Primality, factorisation and multiplicative functions are exact",
  "For every admissible integer up to the limit of its type (including 2^31, 2^63 and 2^64 borders, strong pseudoprimes, prime squares): primality tests (scalar and SIMD) are exact; every sieve of any size N lists exactly the primes up to N and gives a prime (smallest where promised) factor; factorisations consist of distinct primes (ascending where promised) whose powers multiply to n; divisor lists, Euler's phi, Carmichael's lambda and the Moebius function are exact; floor-quotient decompositions list exactly the maximal blocks; k-th roots are exact floors and ceilings; square-free counts and the Moebius and totient summatory functions are exact at n and at every quotient of n.",
  ["inputs"], "all integers of every supported width; all sieve sizes",
  NOTEST + "errors appear at single integers: a threshold, a pseudoprime, an overflow border.",
  ["library/number/" + x for x in ("deterministic_miller_rabin.hpp", "deterministic_miller_rabin_simd.hpp", "sieve_of_eratosthenes.hpp", "sieve_of_eratosthenes_constexpr.hpp", "internal_eratosthenes.hpp", "linear_sieve.hpp", "fast_factorize.hpp", "util.hpp", "factorized_form.hpp", "mobius_function.hpp", "enumerate_quotient.hpp", "kth_root_round.hpp", "count_square_free.hpp", "sum_of_mobius_function.hpp", "sum_of_totient_function.hpp")],
  [("fixed witness sets per range", "library/number/deterministic_miller_rabin.hpp"), ("wheel sieve tables", "library/number/internal_eratosthenes.hpp")],
  [("flag/pf", "static sieve arrays", "library/number/sieve_of_eratosthenes.hpp")], ["return values"]),
P("C20", "Modular, Diophantine and rational arithmetic is exact",
  "For every modulus and operand in range: static, dynamic and 2^61-1 modints are Z/mZ (construction from any integer type, + - * / pow inv, square roots), Barrett and Montgomery reduction return exact residues, extended gcd gives Bezout coefficients, ax+by=c under any history of bounds reports exactly its solution set (emptiness, count, extreme solutions), CRT reconstruction, discrete logarithms (smallest exponent, or none; baby-step and index-calculus, reused objects), orders, totient, Carmichael function and primitive roots, square roots modulo primes and composites, power towers, minima of (ax+b) mod m, factorial-base numbers, rational arithmetic and ordering, denominators with a given quotient, and Stern-Brocot navigation are exact.",
  ["inputs", "histories"], "all moduli and operands within the documented ranges, all histories of assignments, bounds and moves",
  NOTEST + "errors sit at single residues: widths near 2^31, 2^32 and 2^63, zero coefficients, non-coprime bases, negative operands.",
  ["library/number/" + x for x in ("barrett_reduction.hpp", "montogomery.hpp", "modint.hpp", "modint_2^61m1.hpp", "ext_gcd.hpp", "bezout_equation.hpp", "garner.hpp", "discrete_logarithm.hpp", "fast_discrete_logarithm.hpp", "order_Z_mZ.hpp", "primitive_root.hpp", "mod_sqrt.hpp", "tetration_mod.hpp", "min_of_mod_of_linear.hpp", "factorial_number.hpp", "find_denominators.hpp", "rational.hpp", "stern_brocot_tree.hpp")] + ["library/math/inv_mods.hpp", "library/math/pow_mods.hpp", "library/math/modint_extension.hpp"],
  [("reduction by multiplication", "library/number/barrett_reduction.hpp"), ("continued-fraction walk", "library/number/stern_brocot_tree.hpp")],
  [("_val", "residue", "library/number/modint.hpp")], ["return values of every operation"]),
P("C21", "Transforms, lattice convolutions and set power series match the definitions",
  "For every array (any size the transform accepts, size 1 included; any ring, signed integers or residues): the subset, superset, divisor and multiple zeta transforms are the defined sums and their Moebius transforms are the inverses, Walsh-Hadamard and Kronecker-power transforms are the defined tensor powers and invert, and AND, OR, XOR, GCD, LCM, Dirichlet, subset, min-plus (convex with arbitrary or convex), multivariate (truncated and circular) and multiplicative-mod-2^n convolutions equal the sums over pairs of indices; set power series operations (product, inverse, exp, log, sqrt, pow, composition, and their array variants), after any history of assignments, satisfy their defining identities.",
  ["inputs", "histories"], "all arrays of all admissible sizes over the supported rings, all histories of series operations",
  NOTEST + "errors show only at particular indices, sizes (1, powers of two, highly composite) or zero divisors.",
  ["library/transform/" + x for x in ("subset.hpp", "supset.hpp", "divisor.hpp", "multiple.hpp", "walsh_hadamard.hpp", "kronecker.hpp", "kronecker_power.hpp")] + ["library/convolution/" + x for x in ("convolution.hpp", "and_convolution.hpp", "or_convolution.hpp", "xor_convolution.hpp", "gcd_convolution.hpp", "lcm_convolution.hpp", "dirichlet_convolution.hpp", "subset_convolution.hpp", "array_subset_convolution.hpp", "min_plus_convolution.hpp", "multi_variate_convolution.hpp", "multi_variate_convolution_circular.hpp", "multiplicative_convolution_mod_2^n.hpp", "polynomial_eval.hpp")] + ["library/math/set_power_series.hpp", "library/math/array_set_power_series.hpp", "library/algorithm/monotone_minima.hpp"],
  [("ranked zeta/Moebius transforms", "library/convolution/subset_convolution.hpp"), ("divide and conquer over totally monotone rows", "library/algorithm/monotone_minima.hpp")],
  [("coefficients", "series indexed by subsets", "library/math/set_power_series.hpp")], ["return values and transformed arrays"]),
P("C22", "Matrices, linear systems and linear spans are exact",
  "For every matrix and vector (any shape, singular or not, one row or column included; integers, residues modulo primes and composites, GF(2), reals within rounding): sums, products (also at sizes where the fast multiplication starts), powers, transposes, inverses (reported absent exactly when singular), quotients, determinants, ranks, characteristic polynomials, Hessenberg forms, circulant products and powers, hafnians and spanning-tree counts are exact; solving a linear system reports a solution exactly when one exists, with a correct particular solution and a basis of the whole kernel; and bases of GF(2) spans under any history of insertions, sums and intersections generate exactly the right span with independent vectors.",
  ["inputs", "histories"], "all matrices and vectors of any shape over the supported rings, all histories of span operations",
  NOTEST + "errors show on particular shapes (wide, tall, full rank, singular) and pivots that need a row exchange.",
  ["library/linear_algebra/" + x for x in ("array_matrix.hpp", "characteristic_polynomial.hpp", "circulant_matrix.hpp", "count_spanning_trees.hpp", "gaussian_elimination.hpp", "gaussian_elimination_f2.hpp", "hafnian.hpp", "hessenberg_reduction.hpp", "matrix.hpp", "matrix_f2.hpp", "xor_base.hpp")],
  [("row elimination with pivoting", "library/linear_algebra/gaussian_elimination.hpp"), ("Strassen recursion", "library/linear_algebra/matrix.hpp")],
  [("_basis", "reduced basis", "library/linear_algebra/xor_base.hpp")], ["return values"]),
P("C23", "Polynomials, power series and convolutions satisfy their defining identities",
  "For every polynomial (any length including empty, any leading or trailing zeros, sparse or dense) and every requested number of terms, on both sides of every size threshold: sums, products, quotients and remainders, shifts, derivatives, integrals, values, inverse, log, exp, pow (any exponent k >= 0), square root (absent exactly when none exists), products of many, composition, compositional inverse, f(e^x), Taylor shift, Newton basis, (multi-)point evaluation, interpolation, chirp-z, sample shifting, gcd with Bezout coefficients, products of f(r^k x), rational series, rook polynomials, subset-sum counts, n-th terms of linear recurrences and shortest recurrences satisfy the identity defining them; on-line (relaxed) products, inverses, exp, log, pow and sqrt return each coefficient right after any number of appended ones; and integer, modulo-2^64, arbitrary-modulus and oversized convolutions are exact.",
  ["inputs", "histories"], "all polynomials of any length over the supported moduli, all requested precisions, all append histories",
  NOTEST + "errors show only beyond a size threshold, with leading zeros, or with arguments of different length.",
  ["library/polynomial/" + x for x in ("array_fps_naive.hpp", "berlekamp_massey.hpp", "bostan_mori.hpp", "compose.hpp", "compose_exp.hpp", "compose_inv.hpp", "convert_to_newton_basis.hpp", "formal_power_series.hpp", "formal_power_series_relaxed.hpp", "fps.hpp", "fps_naive.hpp", "lagrange_interpolation.hpp", "multi_point_eval.hpp", "polynomial_gcd.hpp", "polynomial_interpolation.hpp", "polynomial_taylor_shift.hpp", "prod_f(r^k_x).hpp", "rational_fps.hpp", "rook_polynomial.hpp", "shift_of_sampling_points.hpp", "subset_sum.hpp", "vec_sparse_fps.hpp")] + ["library/convolution/" + x for x in ("arbitrary_mod_convolution.hpp", "convolution_2_64.hpp", "convolution_large.hpp", "convolution_naive.hpp", "relaxed_convolution.hpp", "relaxed_convolution_ntt.hpp", "semi_relaxed_convolution.hpp", "semi_relaxed_convolution_ntt.hpp", "polynomial_eval_multipoint_eval.hpp")] + ["library/transform/chirp_z_transform.hpp"],
  [("Newton iteration with size thresholds", "library/polynomial/fps.hpp"), ("blockwise on-line convolution", "library/convolution/relaxed_convolution_ntt.hpp")],
  [("_f, _g, _h", "operands and partial products of an on-line convolution", "library/convolution/relaxed_convolution.hpp")], ["return values"]),
P("C24", "Offline algorithms and static range queries answer exactly",
  "For every input: Mo's algorithm walks its window only by adjacent, in-range add/remove steps and evaluates each query exactly once on exactly its range; Horn-SAT and 2-SAT report a satisfying assignment exactly when one exists; offline dynamic connectivity answers every connectivity and component-sum query as of its time under any history of edge insertions and deletions (multi-edges included); static range inversion counts, modes, distinct counts, xored mex and +-1 RMQ are exact for every (also empty) range; areas of unions of rectangles, maximum rectangles and squares, rectangles in histograms, inversion numbers, longest increasing subsequences, numbers of distinct subsequences, permutation trees and connectivity states of growing grids are those of their definitions.",
  ["inputs", "histories"], "all arrays, grids, clause sets, edge histories and query sequences of any length, empty ones included",
  NOTEST + "errors show only for particular windows, ties, empty ranges or clause orders.",
  ["library/algorithm/" + x for x in ("area_of_union_of_rectangles.hpp", "horn_sat.hpp", "inversion_number.hpp", "maximum_rectangle.hpp", "maximum_square.hpp", "mo.hpp", "offline_dynamic_connectivity.hpp", "offline_dynamic_connectivity_component_sum.hpp", "rmq_pm1.hpp", "rmq_pm1_with_index.hpp", "two_sat.hpp")] + ["library/range_query/" + x for x in ("static range_count_distinct.hpp", "static_range_inversion_number_query.hpp", "static_range_mode_query.hpp", "static_range_xored_mex_query.hpp")] + ["library/datastructure/permutation_tree.hpp", "library/dp/longest_increasing_subsequence.hpp", "library/dp/number_of_subsequences.hpp", "library/dp/grid_connectivity.hpp"],
  [("moving window", "library/algorithm/mo.hpp"), ("segment tree over time with undo", "library/algorithm/offline_dynamic_connectivity.hpp")],
  [("l, r", "current window", "library/algorithm/mo.hpp")], ["callbacks and return values"]),
P("C25", "Geometric predicates and constructions are right in every configuration",
  "For every configuration of integer points (general, collinear, coincident, touching; either orientation; coordinates up to 10^9 in the integral library): orientation, incidence, parallelism, equality and intersection of lines, rays, segments, circles and polygons are decided exactly; convex hulls are the boundary points in counter-clockwise order from the smallest; closest and farthest pairs, diameters, lattice-point counts, areas, inclusion in (convex) polygons, sorting by argument and segment-crossing counts are exact; and the real-valued constructions (projections, reflections, distances, crossing and touching points, tangents, cuts, centres of triangles, common areas, and their 3D counterparts) satisfy their defining equations within rounding.",
  ["inputs"], "all point sets, polygons, lines, circles and planes, degenerate positions included",
  NOTEST + "errors show only in degenerate positions: collinear or repeated points, tangency, clockwise input, points on an edge.",
  ["library/integral_geom/" + x for x in ("geometry.hpp", "closest_pair.hpp", "convex_hull.hpp", "convex_hull_inclusion.hpp", "count_lattice_point.hpp", "farthest_pair.hpp", "sort_points_by_argument.hpp")] + ["library/geom/" + x for x in ("geometry.hpp", "closest_pair.hpp", "convex_hull.hpp", "segment_intersections.hpp", "geometry3d.hpp")],
  [("monotone chain", "library/integral_geom/convex_hull.hpp"), ("rotating calipers", "library/integral_geom/geometry.hpp")],
  [("res", "hull under construction", "library/integral_geom/convex_hull.hpp")], ["return values"]),
P("C26", "Combinatorial sequences, binomials, factorials and sums are exact",
  "For every argument in range and every modulus supported: Bell, Bernoulli, derangement, Eulerian, partition and both kinds of Stirling numbers (single rows, columns, whole tables, and modulo small primes), powers and power sums, binomial coefficients (also modulo small primes, with small r offline, and enumerated), factorials and their inverses (table, embedded and large-argument forms, in any order of queries), binomial prefix sums under any walk of queries, products of differences, and sums of i^d r^i, finite or infinite, equal the values their definitions give.",
  ["inputs", "histories"], "all arguments and moduli in range, all orders of queries",
  NOTEST + "errors show only at single arguments: 0 and 1, the last entry of a row, arguments near the modulus.",
  ["library/sequence/" + x for x in ("bell_number.hpp", "bernoulli_number.hpp", "binomial_coefficient.hpp", "binomial_coefficient_small_prime_mod.hpp", "binomial_coefficient_small_r_offline.hpp", "binomial_coefficitnt_enumeration.hpp", "eulerian_number.hpp", "montmort_number.hpp", "partition_number.hpp", "powers.hpp", "stirling_number1.hpp", "stirling_number1_small_prime_mod.hpp", "stirling_number2.hpp", "stirling_number2_small_prime_mod.hpp", "sum_of_powers.hpp")] + ["library/math/" + x for x in ("binomial_coefficient_sum.hpp", "factorial.hpp", "factorial_embeded.hpp", "factorial_large.hpp", "product_of_differences.hpp", "sum_i^d_r^i.hpp", "util.hpp")],
  [("table grown on demand", "library/math/factorial.hpp"), ("divide and conquer over shifted rows", "library/sequence/stirling_number1.hpp")],
  [("_fac, _fac_inv", "tables grown on demand", "library/math/factorial.hpp")], ["return values"]),
P("C27", "Arbitrary-precision integers compute exactly under every history",
  "For every history of operations on signed and unsigned big integers of any length (zero, one digit, both sides of every length at which another multiplication or division algorithm takes over; operands aliased or not): construction from text (leading zeros, minus zero) or from any machine integer (extreme values included), addition, subtraction, multiplication, division and remainder truncated towards zero, divmod, increments, negation, digit shifts and comparisons give the exact integers, printed in canonical form, and conversions to machine integers wrap around.",
  ["inputs", "histories"], "all integers of any length, all operation histories",
  NOTEST + "errors show only for particular digits: zero runs inside a quotient, exact divisors, carries across all digits.",
  ["library/math/bigint.hpp", "library/math/unsigned_bigint.hpp", "library/convolution/arbitrary_mod_convolution.hpp", "library/convolution/convolution_naive.hpp"],
  [("Newton division", "library/math/unsigned_bigint.hpp"), ("sign and magnitude", "library/math/bigint.hpp")],
  [("_neg, _dat", "sign and digits", "library/math/bigint.hpp")], ["text of every result, comparisons, conversions"]),
P("C28", "Decision diagrams denote exactly the family each operation defines",
  "After any history of operations on zero-suppressed decision diagrams, which all share nodes and memo tables: union, intersection, difference, symmetric difference, toggling an item, selecting the sets with or without an item, restrict (sets containing a set of the other family), permit (sets contained in one), subdiagrams and node creation denote exactly the defined family of sets; cardinality, greatest length, a longest set, the top item and emptiness are those of the family; and the diagram is reduced: one node per distinct subfamily.",
  ["histories", "inputs"], "all histories of operations over all families of sets",
  NOTEST + "a wrong memo key or branch shows only for later operations on particular earlier families.",
  ["library/datastructure/ZDD.hpp", "library/util/hashes.hpp"],
  [("hash-consed nodes and memoised recursion", "library/datastructure/ZDD.hpp")],
  [("zdd_cache, child, level", "unique table", "library/datastructure/ZDD.hpp")], ["families read off the diagrams, return values"]),
P("C29", "Utility containers, permutations, iteration, search do what they state",
  "For any contents and any history of calls: the coordinate compressor, run-length encoder, object pool with 32-bit pointers, Zobrist hashes and default-valued vector answer as the abstract container (a set, a sequence, live objects with their values, one hash per set with distinct sets told apart, a sequence extended by the default); permutations compose, invert, raise to any power, sort indices and hash bijectively onto 0..n!-1; grid neighbours, rotation and transposition, product, subset, k-subset and set-bit iteration enumerate exactly the defined objects once each in order; ternary and binary search return an optimum and the boundary; counts of pairs by sum, floor and ceiling division, digit, split, concatenation, repetition and componentwise tuple helpers return the defined values.",
  ["inputs", "histories"], "all contents and call histories of the utility classes and functions",
  NOTEST + "an off-by-one shows only at particular bounds, aliasing, or call orders.",
  ["library/util/" + x for x in ("container_utils.hpp", "coordinate_compressor.hpp", "run_length_encoder.hpp", "object_pool.hpp", "pointer_32bit.hpp", "zobrist_hash.hpp", "default_vector.hpp", "permutation.hpp", "grid_utils.hpp", "rot90.hpp", "transpose.hpp", "iter_util.hpp", "subset_iterator.hpp", "bit_utils.hpp", "search.hpp", "sum_count.hpp", "step_sum.hpp", "step_view.hpp", "pair_ops.hpp", "tuple_ops.hpp", "vector_ops.hpp", "default_operator.hpp", "update_proxy_object.hpp", "variant_utils.hpp", "hashes.hpp")] + ["library/template.hpp"],
  [("compressed runs and their length", "library/util/run_length_encoder.hpp"), ("Gosper-style subset stepping", "library/util/subset_iterator.hpp")],
  [("comp, _length", "runs", "library/util/run_length_encoder.hpp")], ["return values, contents, iteration order"]),
P("C30", "Text streams, expression parsing, nimbers and affine maps are exact",
  "For any text and any sequence of reads, the input stream delivers the whitespace-separated tokens in order as integers up to 128 bits, characters, strings, and nested pairs, tuples and containers; for any sequence of writes the output stream produces exactly the decimal text of every value, elements of pairs, tuples and containers separated by one blank, with the requested separators and terminators. Parsing an arithmetic expression yields the value under the usual precedence, left associativity, unary minus and truncating division and stops right after the expression, and rejects malformed text. Nimbers of every width up to 64 bits form the nim field: addition, multiplication, division, inverse and powers. Affine and clamped affine maps compose as functions, and their arithmetic, order and text form agree.",
  ["inputs", "histories"], "all texts, values and operand combinations",
  NOTEST + "the wrong digit, sign, precedence or table entry shows only for particular values.",
  ["library/io/input_stream.hpp", "library/io/output_stream.hpp", "library/icpc/parsing.hpp", "library/algebra/field/nimber.hpp", "library/algebra/monoid/affine.hpp", "library/algebra/monoid/affine_clamp.hpp", "library/util/container_utils.hpp", "library/template.hpp", "library/type_traits/type_traits.hpp"],
  [("recursive descent", "library/icpc/parsing.hpp"), ("block tables of nim products", "library/algebra/field/nimber.hpp"), ("clamp composition", "library/algebra/monoid/affine_clamp.hpp")],
  [("is, os", "stream positions", "library/io/input_stream.hpp")], ["texts written, values read, results and rejections"]),
]
