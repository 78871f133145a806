import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=a,where=b[0] if isinstance(b,(list,tuple)) else b) for a,b in [(x,files[0]) for x in state]],observe_at=observe,hook_needed=None)))
core=["src/graphillion/setset.cc","src/graphillion/zdd.cc","src/pygraphillion.cc","graphillion/setset_base.py"]
wr=["graphillion/graphset.py","graphillion/digraphset.py","graphillion/vertex_setset.py","graphillion/edgevertex_setset.py","graphillion/setset.py"]

p("P01","Families behave as mutable mathematical sets of sets",
"For every collection class (element sets, graphs, digraphs, vertex sets, edge-and-vertex sets) and every history of constructing, copying, adding, removing, discarding, popping, clearing, flipping, uniting, intersecting, subtracting and symmetric-differencing (binary, variadic, operator and in-place forms), the collection holds exactly the members a mathematical set of sets would hold. Membership tests, truthiness, size, equality, subset/superset/strict/disjointness comparisons and iteration all agree with that set. No operation changes any collection other than the one it is documented to update, and removing a missing member or popping an empty collection raises KeyError.",
["histories","inputs"],"all five classes, all universes, all sequences of pure and in-place operations on several live collections","A bug needs a particular shape of two families, a repeated operand or an aliasing history; unit tests use one or two fixed families.",
core+wr,[("set algebra on decision diagrams","src/graphillion/setset.cc setset::operator|,&,-,^ and in-place forms"),("member update","src/graphillion/setset.cc insert/erase/flip"),("argument conversion","graphillion/*.py _conv_arg/_conv_edge")],["the family of each live object","global node table shared by all objects"],["iteration, len, in, ==, <=, <, isdisjoint, bool"])

p("P02","Derived family operations follow their set-theoretic definitions",
"For any two families over any universe, quotient, remainder, join, meet, minimal, maximal, blocking/hitting sets, complement of every member, complement of the family, sub-/super-/non-sub-/non-super-selection and the selections by size (smaller, larger, exact) return exactly the family given by their documented definitions. Selecting members that include, exclude or are included in an element, a vertex, a graph or a family returns exactly the members so described. None of these changes its operands, and repeated or interleaved calls give the same answers as first calls.",
["inputs","histories"],"all pairs of families, all elements and sizes including 0 and more than the universe size, in all collection classes that offer the operation","Recursive diagram algorithms with memo tables fail only for particular sharing patterns of two families or on a later call; tests check one worked example each.",
core+wr,[("recursive ZDD operations with caches","src/graphillion/zdd.cc minimal/maximal/hitting/join/meet/non_subsets/non_supersets"),("selection wrappers","graphillion/graphset.py including/excluding/included")],["memo tables kept across calls"],["the returned family, enumerated"])

p("P03","Iteration yields every member exactly once, in the promised order",
"Plain and random iteration over a collection yields every member exactly once and nothing else, also when several iterators are interleaved or the collection is changed or discarded meanwhile (an iterator goes on over the family it started from). Ascending and descending iteration yields every member exactly once in non-decreasing or non-increasing total weight, for explicit weights (integer or real, negative, zero, tied, partly or wholly missing) and for the weights registered with the universe (missing ones count 1). A randomly drawn first member can be any member, with equal probability.",
["inputs","histories"],"all families, all weight assignments, all interleavings of iterators","Order bugs need negative or tied weights on particular diagram shapes; tests iterate three-member families.",
["src/graphillion/setset.cc","src/graphillion/zdd.cc","graphillion/setset_base.py"]+wr,[("weighted iterator","src/graphillion/setset.cc weighted_iterator"),("random iterator","src/graphillion/setset.cc random_iterator"),("best member","src/graphillion/zdd.cc choose_best/choose_random")],["iterator state"],["sequence of yielded members"])

p("P04","Cardinalities are exact at every magnitude",
"The number of members reported for a collection is exact, however large, and agrees with enumeration when it can be enumerated, and with known closed forms and with the sums over size classes when it cannot. The built-in length either returns that number or raises OverflowError when it does not fit, never a wrong number.",
["inputs"],"all families from empty through more than 2^64 members, on universes of up to hundreds of elements","Arithmetic errors appear only for counts beyond machine words or for particular diagram depths; tests count small families.",
["src/graphillion/setset.cc","src/graphillion/zdd.cc","src/SAPPOROBDD/ZBDD.cc","src/pygraphillion.cc"],[("big-number counting","src/graphillion/setset.cc setset::size / algo_c"),("length slot","src/pygraphillion.cc setset_len")],["counters per diagram node"],["len(x), x.len()"])

p("P05","Linear cost filters select exactly the qualifying members",
"Filtering a collection by total element cost at most, at least or equal to a bound keeps exactly the members whose exact integer cost sum satisfies the relation, for every assignment of 32-bit costs of any sign and every bound, in every class that offers it. The three filters are consistent with each other and leave the original collection unchanged.",
["inputs"],"all families, cost assignments (negative, zero, large) and bounds (including equal to an attained sum, and just beside it), repeated calls with changing costs","A dynamic program with interval memoisation is wrong only at particular interval boundaries or after an earlier call with other costs.",
["src/SAPPOROBDD/BDDCT.cc","src/graphillion/setset.cc"]+wr,[("cost-bounded filtering with interval memo","src/SAPPOROBDD/BDDCT.cc"),("sign-flipped and differenced variants","graphillion/graphset.py cost_ge/cost_eq")],["cost table and interval cache"],["returned family, enumerated"])

p("P06","Probabilities and reliabilities equal the exact expectation",
"When every element is independently present with its own probability, the probability of a collection equals the exact sum over its members of the product of present and absent probabilities, including probabilities 0 and 1, in every class. The reliability of a network equals the exact probability that the given terminals are connected by surviving edges, for every terminal set, edge order and graph.",
["inputs"],"all families/graphs, all probability vectors, all terminal sets","Weighted counting errors show only for particular skipped levels or frontier states; tests check one figure.",
["src/graphillion/zdd.cc","src/graphillion/setset.cc","src/graphillion/reliability/reliability.cc","src/graphillion/reliability/reliability.h"]+wr,[("probability recursion","src/graphillion/zdd.cc probability"),("frontier-based reliability","src/graphillion/reliability")],[],["returned float within 1e-9 of the exact value"])

p("P07","Dump and load round-trip every collection",
"Writing a collection to a string or a file and reading it back under the same universe gives an equal collection, for every class, every family including the empty one and the one holding only the empty set, in the same process or another one, before or after other collections were built. Registering a universe that was itself saved and restored in its stored order makes the restored collection mean the same members. A file may hold several collections, which are loaded in the order they were saved; a collection that could not be written completely is reported as an error, not as saved.",
["inputs","histories","configurations"],"all families and universes, same-process and cross-process restores, interleaved with other work","Numbering and level errors appear only when node order, universe growth or process state differs from the writer's; tests reload into the same state.",
["src/graphillion/zdd.cc","src/graphillion/setset.cc","src/pygraphillion.cc","graphillion/setset_base.py"]+wr,[("dump","src/graphillion/zdd.cc dump"),("load","src/graphillion/zdd.cc load")],["serialised text"],["equality and enumeration after load; behaviour of operations on the loaded object"])

p("P08","Results do not depend on how the universe was written down",
"For a given weighted graph, every result is the same set of graphs whatever the order in which edges were listed, the orientation in which each undirected edge was written, the traversal strategy and start vertex chosen, and the kind of vertex labels used (numbers, strings, tuples), up to the corresponding relabelling. The registered universe reports back exactly the edges and weights given, an edge named in either orientation denotes the same edge wherever an edge is accepted, and explicit 'as-is' ordering keeps the listed order. Equal labels (1 and 1.0) denote one vertex; any hashable labels are allowed, including ones that cannot be compared or whose hashes are equal.",
["inputs","configurations"],"all graphs (connected or not), edge permutations, orientations, traversals, sources, label types, and graph-returning operations","Frontier algorithms are sensitive to the order of edges and vertices; tests use one fixed order of one small grid.",
["graphillion/universe.py","graphillion/digraphset.py","graphillion/graphset.py","src/graphillion/graphset.cc"],[("edge ordering","graphillion/universe.py _traverse"),("edge normalisation","graphillion/graphset.py _conv_edge")],["registered universe, weights"],["canonicalised results of operations under different presentations"])

p("P09","Results do not depend on what was done before",
"A result computed after any history - other universes (smaller or larger) registered before, other classes used, other collections built, kept or discarded, large computations and the memory reclamation they cause - equals the result of the same computation in a fresh process. Registering a universe for one kind of collection leaves collections of independently registered kinds intact. This includes the reclamation forced by a limit on the number of nodes, as long as the result fits.",
["histories"],"all sequences of universe registrations and operations before the observed computation, including ones that trigger internal garbage collection and cache reuse","Stale caches and level offsets show only after particular histories; each unit test starts from a fresh universe.",
["src/graphillion/zdd.cc","src/graphillion/graphset.cc","src/SAPPOROBDD/bddc.cc","graphillion/universe.py"],[("global variable and node tables","src/graphillion/zdd.cc new_elems/max_elem"),("static memo tables","src/graphillion/zdd.cc"),("garbage collection","src/SAPPOROBDD/bddc.cc bddgc")],["global ZDD manager, static caches, class-level universe tables"],["results after a history vs. in a fresh process"])

p("P10","Constraint search returns exactly the graphs meeting the constraints",
"Searching for subgraphs with any combination of vertex groups, per-vertex degree sets, edge-count sets, cycle prohibition, linear inequality constraints and a given search space returns exactly the subgraphs of the universe that satisfy all of them as documented: each vertex group lies in one component, different groups in different ones, and no component lies outside the groups when groups are given. Nothing satisfying is missed and nothing else is returned.",
["inputs"],"all graphs, constraint combinations (including unsatisfiable, overlapping with isolated vertices, ranges with steps, real coefficients) and search spaces","Interactions of several constraints on a frontier need particular graphs and orders; tests check a handful of combinations on one grid.",
["graphillion/graphset.py","src/graphillion/graphset.cc","src/subsetting/spec/FrontierBasedSearch.hpp","src/subsetting/spec/DegreeConstraint.hpp","src/subsetting/spec/SizeConstraint.hpp","src/subsetting/spec/LinearConstraints.hpp"],[("combined search","src/graphillion/graphset.cc SearchGraphs"),("component tracking","src/subsetting/spec/FrontierBasedSearch.hpp")],[],["returned family vs. brute force over all subgraphs"])

p("P11","Paths, cycles, trees, forests and Steiner structures are exact",
"The ready-made searches for paths (any, from one terminal, between two terminals, Hamiltonian), cycles (Hamiltonian or not), trees and forests (rooted, spanning or not), connected components around given vertices, and Steiner subgraphs, trees, cycles and paths each return exactly the subgraphs of the universe that fit the documented definition. This holds for every graph, every terminal choice and every edge order, at sizes far beyond enumeration as witnessed by exact counts. With a single terminal the graph without edges is an answer where the terminal alone satisfies the definition.",
["inputs"],"all graphs and terminal/root choices","Wrong pruning shows only for particular graph shapes, terminals or orders; tests use the 2x3 grid.",
["graphillion/graphset.py","src/graphillion/graphset.cc","src/graphillion/degree_distribution/DegreeDistributionGraphs.cc"],[("family definitions by constraints","graphillion/graphset.py paths/cycles/trees/forests/steiner_*")],[],["returned family vs. direct enumeration; counts vs. independent algorithms"])

p("P12","Matchings, factors, regular and degree-distribution families are exact",
"The searches for matchings (plain, perfect, k-, b-), factors (k-, f-), regular graphs (fixed or ranged degree, connected or not) and graphs with a given degree distribution (with 'any number' entries, connected or not), including the P-shaped graphs, return exactly the subgraphs fitting the documented definition.",
["inputs"],"all graphs and parameter choices, including zero, unattainable and missing entries","Degree bookkeeping fails for particular degrees, isolated vertices or disconnected remainders; tests check single examples.",
["graphillion/graphset.py","src/graphillion/regular/RegularGraphs.cc","src/graphillion/degree_distribution/DegreeDistributionGraphs.cc","src/graphillion/graphset.cc"],[("regular search","src/graphillion/regular"),("degree distribution search","src/graphillion/degree_distribution")],[],["returned family vs. brute force"])

p("P13","Cliques, bicliques and bipartite families are exact",
"The searches for complete subgraphs on k vertices, balanced complete bipartite subgraphs, bipartite subgraphs and regular bipartite subgraphs (connected or not) return exactly the subgraphs of the universe fitting the documented definition, for every graph and size.",
["inputs"],"all graphs and sizes","They compose several searches (odd cycles, non-supersets, degrees), so an error needs a graph exercising the combination.",
["graphillion/graphset.py","src/graphillion/odd_edges_subgraphs/OddEdgeSubgraphs.cc","src/graphillion/regular/RegularGraphs.cc","src/graphillion/graphset.cc"],[("odd cycle exclusion","graphillion/graphset.py bipartite_graphs"),("degree and size based cliques","graphillion/graphset.py cliques/bicliques")],[],["returned family vs. brute force"])

p("P14","Partition enumeration is exact and respects weights and balance",
"Partition enumeration returns exactly the edge sets formed by all edges inside the blocks of a partition of the vertices into connected blocks whose number lies in the requested range. Balanced partition enumeration additionally keeps exactly those whose block weights (given vertex weights, 1 by default) lie between the lower and upper bound, whose ratio of heaviest to lightest block is within the given ratio, and whose number of blocks is the one requested.",
["inputs"],"all graphs, component ranges, vertex weights, ratios and bounds","Induced-ness and weight bookkeeping at frontier changes fail only for particular shapes and weights; tests count one grid.",
["graphillion/graphset.py","src/graphillion/partition/Partition.cc","src/graphillion/partition/BalancedPartition.cc","src/graphillion/partition/GraphRangePartitionSpec.h"],[("frontier partition specs","src/graphillion/partition")],[],["returned family vs. enumeration of vertex partitions"])

p("P15","Induced and forbidden-induced subgraph families are exact",
"Induced-subgraph search returns exactly the edge sets of connected induced subgraphs, and the weighted form exactly those whose total vertex weight lies in the given bounds. Forbidden-induced-subgraph search returns exactly the subgraphs containing no induced copy of any given graph, and each named graph class (claw-, diamond-, gem-, odd-hole-free, chordal, cograph, split, block, threshold, domino and the others) contains exactly the subgraphs of the universe belonging to that class by its textbook characterisation. Forbidden graphs are unlabelled patterns: any induced copy, under any labels, counts.",
["inputs"],"all graphs, weights, bounds and forbidden families","The constructions compose many families; one missing pattern is visible only on graphs containing it.",
["graphillion/graphset.py","graphillion/graphclass.py","src/graphillion/induced_graphs/InducedGraphs.cc","src/graphillion/induced_graphs/WeightedInducedGraphs.cc","src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc"],[("induced spec","src/graphillion/induced_graphs"),("forbidden induced filter","src/graphillion/forbidden_induced"),("class definitions","graphillion/graphclass.py")],[],["returned family vs. brute force with an independent recogniser"])

p("P16","Directed families are exact",
"For every directed graph, including ones with antiparallel edge pairs, the searches for directed cycles, Hamiltonian cycles, s-t paths (Hamiltonian or not), rooted forests and rooted trees (spanning or not, given or free roots) and for subgraphs with given in- and out-degrees return exactly the sub-digraphs fitting the documented definition, whatever the edge order or traversal.",
["inputs","configurations"],"all digraphs, terminals, roots, degree constraints, edge orders and traversals","Direction handling on the frontier fails only for particular orders and antiparallel pairs; tests use one small digraph.",
["graphillion/digraphset.py","src/graphillion/digraphs/FrontierDirectedSingleCycle.hpp","src/graphillion/digraphs/FrontierDirectedSTPath.hpp","src/graphillion/digraphs/FrontierRootedForest.hpp","src/graphillion/digraphs/FrontierRootedTree.hpp","src/graphillion/digraphs/FrontierDegreeSpecified.hpp","src/graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp"],[("directed frontier specs","src/graphillion/digraphs"),("digraph universe","graphillion/digraphset.py set_universe")],["digraph universe"],["returned family vs. brute force over all sub-digraphs"])

p("P17","Vertex-set families are exact",
"For every graph and distance, the independent sets, dominating sets, vertex covers and cliques reported are exactly the vertex sets fitting the documented definition over the whole vertex universe, including vertices untouched by the given edges. The vertex universe derived from an edge universe contains every vertex exactly once.",
["inputs"],"all vertex universes, edge lists and distances","Distance and orientation handling fail only for particular label values or shapes; tests check one path graph.",
["graphillion/vertex_setset.py","graphillion/universe.py","src/graphillion/variable_converter/variable_converter.cc"],[("vertex families by set algebra","graphillion/vertex_setset.py independent_sets/dominating_sets/vertex_covers/cliques")],["vertex universe"],["returned family vs. brute force"])

p("P18","Conversion of edge sets to vertex sets and to edge-vertex sets is faithful",
"Converting a collection of edge sets to vertex sets yields exactly the family of the sets of endpoints of its members (isolated vertices never appear, different members with the same endpoints coincide), and converting to edge-and-vertex sets yields exactly each member together with its endpoints. This holds for every family, edge order, traversal and vertex labelling, and the converted collections behave correctly under further operations. An explicitly registered vertex universe, in another order or with other vertices, does not change the converted members.",
["inputs","configurations"],"all families of edge sets over all universes and traversals","The conversion depends on the relative order of edges and vertices; tests use one ordering.",
["src/graphillion/variable_converter/variable_converter.cc","src/graphillion/variable_converter/variable_converter.h","graphillion/universe.py","graphillion/graphset.py","graphillion/edgevertex_setset.py"],[("variable conversion","src/graphillion/variable_converter"),("edge-vertex universe order","graphillion/universe.py _set_ev_universe")],["vertex and edge-vertex universes"],["returned family vs. direct image"])

p("P19","One-step reconfiguration neighbourhoods are exact",
"Removing some element, adding some element, and exchanging one element of the members of a family each return exactly the family of all sets reachable from some member by that single step within the registered universe, for every class that offers the operation. Universes registered earlier, larger or smaller, do not leak elements into the result.",
["inputs","histories"],"all families and universes, including the empty family, the empty set, full sets, and sequences of universes of different size","Recursions over absent levels fail only for particular level gaps or after a larger universe; tests use one example.",
["src/graphillion/reconf.cc","src/graphillion/setset.cc","graphillion/setset_base.py"]+wr,[("reconfiguration recursions","src/graphillion/reconf.cc"),("level bounds","src/pygraphillion.cc add_some_element")],["operation caches"],["returned family vs. direct definition"])

p("P20","Searching within a collection selects from that collection",
"Every search that can be invoked on a collection, or be given a collection as search space, returns exactly those members of that collection that the unrestricted search would also return, leaving the collection unchanged, for graphs and digraphs alike. In particular nothing outside the collection is ever returned.",
["inputs"],"all searches offered, all search spaces (empty, singleton, arbitrary), all parameters","Each search has its own plumbing for the search space; tests exercise only a few of them restricted.",
["graphillion/graphset.py","graphillion/digraphset.py","src/graphillion/graphset.cc","src/pygraphillion.cc"],[("method binding","graphillion/graphset.py __init__"),("subsetting","src/subsetting/DdStructure.hpp zddSubset")],[],["restricted result vs. intersection with the unrestricted one"])

p("P21","Large instances agree with independent exact counts",
"On graphs far too large to enumerate (dozens to hundreds of edges) the families' exact counts, extreme members and sampled members agree with independent algorithms: spanning trees with the matrix-tree theorem, perfect matchings with transfer counting, paths and cycles with a separate dynamic program, matchings with a recurrence, best members with shortest-path and spanning-tree algorithms. Set identities between families (partition by size, inclusion-exclusion, complement laws) hold exactly at that scale.",
["inputs"],"grid-like, series-parallel, complete and random graphs beyond enumeration","Frontier-width, hashing and capacity effects appear only at scale; tests stay tiny.",
["src/graphillion/graphset.cc","src/subsetting/dd/DdBuilder.hpp","src/subsetting/DdStructure.hpp","src/SAPPOROBDD/bddc.cc","src/SAPPOROBDD/ZBDD.cc"],[("top-down construction","src/subsetting"),("node tables and hashing","src/SAPPOROBDD/bddc.cc")],["node tables under load"],["counts, optimal weights, sampled members"])

p("P22","Invalid requests are rejected without damage",
"A request naming an edge, vertex or universe that is not valid (unknown edges or vertices, duplicated edges in either orientation, empty universe, unknown traversal, removal of absent members, inconsistent include/exclude constraints, numbers outside the supported 32-bit range, malformed saved data) raises an exception; it never terminates the process, and never returns a collection. Afterwards the registered universe, its weights and all existing collections behave as if the request had not been made.",
["inputs","histories"],"all API entry points that accept edges, vertices, universes or saved text, at any point of a session","Error paths run after partial state changes; tests check only that a few of them raise.",
["graphillion/universe.py","graphillion/digraphset.py","graphillion/graphset.py","graphillion/vertex_setset.py","graphillion/edgevertex_setset.py","src/graphillion/zdd.cc","src/pygraphillion.cc"],[("input validation","graphillion/*.py _conv_*"),("universe replacement","graphillion/universe.py set_universe")],["universe tables, weights"],["exception type; session state afterwards"])

p("P23","Results are independent of the number of threads",
"With any number of worker threads configured, every search returns the same collection, count and member order-independent content as with one thread, run after run, whether progress messages are shown (on standard error) or not.",
["configurations","schedules"],"thread counts 1..8, all searches built on parallel construction","Races in parallel construction show only with several workers on wide frontiers; tests run with one thread.",
["src/subsetting/DdStructure.hpp","src/subsetting/DdStructure.hpp","src/graphillion/graphset.cc","graphillion/graphset.py"],[("OpenMP construction","src/subsetting"),("thread control","graphillion/graphset.py omp_set_num_threads")],["thread configuration"],["results under different thread counts, repeated"])

p("P24","The native layer never touches memory it does not own",
"No sequence of valid calls - any mix of searches, set algebra, iteration with live iterators, saving and loading, registering universes, discarding objects, and rejected calls - makes the native layer read or write outside live memory, use freed memory, or crash.",
["histories","inputs"],"all call sequences of the public API","Memory errors are silent in ordinary runs and depend on sizes and order; tests run without checking tools.",
["src/pygraphillion.cc","src/graphillion/setset.cc","src/graphillion/zdd.cc","src/graphillion/graphset.cc","src/SAPPOROBDD/bddc.cc","src/SAPPOROBDD/BDDCT.cc"],[("native extension","src/pygraphillion.cc")],["heap"],["AddressSanitizer report or abnormal exit"])

p("P25","Repeating work does not accumulate memory",
"Repeating any history of calls - building collections, set algebra, searches, conversions, iteration (complete or abandoned), saving and loading, registering universes, and calls that are rejected - and discarding everything it made leaves no memory behind: whatever a repetition allocates is released once its collections, iterators and results are gone. Only memo tables that depend on the distinct answers computed so far may persist, and these stop growing when the same history is repeated.",
["histories","inputs"],"all call histories of the public API, successful and rejected","Leaks change no answer, so no assertion on results can see them; long-running sessions end in exhaustion.",
["src/pygraphillion.cc","src/graphillion/setset.cc","src/graphillion/zdd.cc","src/SAPPOROBDD/BDDCT.h","src/SAPPOROBDD/bddc.cc","graphillion/setset_base.py"],[("reference counting","src/pygraphillion.cc"),("cost tables","src/SAPPOROBDD/BDDCT.h")],["reference counts, live blocks"],["live blocks of the allocator between repetitions"])

p("P26","Graph objects of other libraries mean the same as edge lists",
"With graph converters installed (as documented for networkx), a universe registered from a graph object (with or without edge weights on it), and every request that takes a graph (constructors, membership, add, remove, discard, flip, including, excluding, included, subgraph comparisons, searches with forbidden or required structures), mean exactly what the same request with the corresponding edge list means, for undirected and directed collections alike; everything that hands out a graph (iteration of every kind, random choice, universe, popping) hands out an object with exactly the edges, directions and weights of the corresponding edge list.",
["inputs","histories"],"all graphs and digraphs, weighted or not, all collections and requests, converters installed before or during a session","Each entry point converts on its own; tests install converters for two or three calls only.",
["graphillion/graphset.py","graphillion/digraphset.py","graphillion/setset_base.py","graphillion/universe.py"],[("converter plumbing","graphillion/graphset.py converters"),("edge data","graphillion/setset_base.py _optimize")],["installed converters"],["results with graph objects vs. results with edge lists"])

p("P27","Collections print as their members, smaller ones first, in 80 characters",
"The text of a collection (repr and str) of any class names the class and lists the members with their elements sorted, members with fewer elements first and members of the same size in order of their elements' positions in the universe; it is at most 80 characters long, contains every member when they fit, and otherwise is the beginning of that list followed by ' ...'. Printing neither depends on registered weights or on how the collection was made, nor changes anything, and works for every kind of element.",
["inputs","histories"],"all collections of the five classes, all element types, complete and abbreviated texts","Tests print four short collections; order, abbreviation and element types vary.",
["graphillion/setset_base.py","graphillion/edgevertex_setset.py","graphillion/graphset.py","graphillion/digraphset.py","graphillion/vertex_setset.py","graphillion/setset.py"],[("text","graphillion/setset_base.py _repr")],[],["text read back vs. members"])

p("P28","The C++ set-of-sets class behaves as an ordered container of sets",
"Through any sequence of calls of the public members of the C++ class graphillion::setset (src/graphillion/setset.h), objects hold exactly the sets they should: construction (from a list of sets, from include/exclude elements within a universe, from a stream, by copy), the operators and their assigning forms, the derived operations, insert (by value, with a hint, an element into all members), erase (by value, by position, an element from all), clear, swap, flip, flip_all(k) over elements 1..k, complement and size all agree with sets of sets; comparisons, is_subset/superset/disjoint, empty and equality of id() agree with equality and inclusion of the contents. insert reports whether the set was new and, also with a hint, returns an iterator at it, from which iteration goes on; count(s) is 1 exactly when s is a member; find(s) is end() exactly when it is not, and otherwise an iterator at s from which iteration goes on as from begin(). begin, begin_randomly, begin_from_min and begin_from_max give every member once (the last two in order of weight), copies of an iterator of any of these kinds go on like the original, and iterators are not disturbed by changes of the object. dump to a stream, << and dump to a FILE write the same text, from which load, >> and the stream constructor restore an equal object, several in one stream in order; text that is not a dump makes load throw and >> set badbit. _enum writes all members with the given braces, to streams and FILEs alike.",
["histories","inputs"],"sequences of native calls over up to four objects and universes of 1 to 60 elements","The C++ tests check one example each, several members are not reachable from Python at all.",
["src/graphillion/setset.h","src/graphillion/setset.cc","src/graphillion/zdd.cc","src/graphillion/util.h"],[("class","src/graphillion/setset.h class setset"),("iterators","src/graphillion/setset.cc setset::iterator::next")],[],["answers of native.cc vs. a model of sets of sets"])

with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
    s=q['statement']
print(len(P))
