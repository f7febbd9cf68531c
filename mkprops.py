import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Default preparation answers every query with the exact shortest distance",
 "For every input graph, after preparing it with default settings, a query from any node to any node reports exactly the weight of the shortest path in the input graph, 0 for a node to itself, and no path exactly when the target is unreachable. This includes disconnected graphs, nodes without edges, duplicate edges, ignored loop and zero-weight edges, ties between equally short paths, and asymmetric weights.",
 ["inputs"],"all input graphs x all source/target pairs",
 "The tests compare against Dijkstra/Floyd-Warshall on 100 random 50-node graphs (weights 1..99, mean degree 2) and five maps by checksum; rare coincidences of ties, witness paths and stalling in particular contraction orders are only hit by luck.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs","src/preparation_graph.rs","src/path_calculator.rs"],
 [("contraction adds a shortcut unless a witness at most as heavy exists","src/node_contractor.rs handle_shortcuts"),("bidirectional upward search with stall-on-demand and best-weight cut-off","src/path_calculator.rs calc_path_multiple_sources_and_targets"),("reduce or add edge","src/preparation_graph.rs add_or_reduce_edge")],
 [("remaining graph","out/in edges among uncontracted nodes, distances among them preserved","src/preparation_graph.rs PreparationGraph")],
 ["fast_paths::prepare + calc_path result weight / None"])
p("C02","A returned path is a real walk with the reported weight and endpoints",
 "Every path a query returns starts at a requested source and ends at a requested target, each consecutive pair of its nodes is joined by an edge of the input graph, no node occurs twice, and the sum of those edge weights (plus the initial weights given for that source and target) is exactly the reported weight. The source and target the path reports are its first and last node.",
 ["inputs"],"all input graphs x preparations x queries (single and multiple sources/targets)",
 "Path equality in the library ignores the node list, and the random tests tolerate up to 10% of the node lists differing from Dijkstra's without ever checking that the list is a path; unpacking of nested shortcuts is unit tested on two hand-made graphs.",
 ["src/path_calculator.rs","src/fast_graph_builder.rs","src/preparation_graph.rs","src/shortest_path.rs"],
 [("shortcut unpacking via replaced in/out edges","src/path_calculator.rs unpack_fwd/unpack_bwd/extract_nodes"),("resolution of center nodes to replaced edge ids","src/fast_graph_builder.rs finish_contraction"),("center node kept in step with weight when an edge is reduced","src/preparation_graph.rs reduce_edge")],
 [("replaced_in_edge/replaced_out_edge","the two edges a shortcut stands for","src/fast_graph.rs FastGraphEdge")],
 ["ShortestPath::get_nodes/get_weight/get_source/get_target"])
p("C03","Every node ordering gives exact results and is recorded as given",
 "Preparing with a given node ordering yields, for every permutation of the node ids and every witness-search budget, a graph whose query results equal the exact shortest distances of the input graph. The node ordering reported by the prepared graph is exactly the permutation that was given.",
 ["inputs","configurations"],"all input graphs x all permutations of their nodes x all settled-node budgets",
 "Tests use the identity order on four tiny graphs and one learned order on two maps; contraction orders that nest shortcuts awkwardly or make an existing edge get replaced by a lighter shortcut are not enumerated.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs","src/preparation_graph.rs","src/fast_graph.rs","src/path_calculator.rs"],
 [("contraction in the given order","src/fast_graph_builder.rs run_contraction_with_order"),("rank assignment and inverse","src/fast_graph.rs get_node_ordering"),("budgeted witness search","src/witness_search.rs find_max_weight")],
 [("ranks","position of every node in the order","src/fast_graph.rs FastGraph")],
 ["prepare_with_order(_with_params) + queries; get_node_ordering"])
p("C04","Preparation parameters never change query results",
 "Whatever values the preparation parameters take (hierarchy depth factor, edge quotient factor, and each of the three settled-node limits, including 0 and the maximum), preparing terminates and queries on the result report exactly the shortest distances of the input graph.",
 ["inputs","configurations"],"all input graphs x all parameter combinations",
 "The tests use the default and four other parameter sets, each on one map; limits of 0 or 1, and combinations where the heuristics' and contraction's witness searches disagree, never run.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs"],
 [("settled node limit stops the witness search with an upper bound","src/witness_search.rs find_max_weight"),("priority queue driven order","src/fast_graph_builder.rs run_contraction"),("relevance computation","src/node_contractor.rs calc_relevance")],
 [("priority queue","remaining nodes by relevance","src/fast_graph_builder.rs run_contraction")],
 ["prepare_with_params + queries"])
p("C05","Multi-source multi-target queries return the optimum over all pairs",
 "A query with several sources and targets, each with an initial weight, reports the minimum over all pairs of source weight + shortest distance + target weight, and no path exactly when no pair with usable initial weights is connected. Entries carrying the maximum weight are ignored, the same node may appear several times or as source and target at once, and the order of the entries does not matter.",
 ["inputs"],"all input graphs x all lists of weighted sources and targets",
 "The random test uses exactly three sources and three targets with weights below 100 on 50-node graphs, where duplicates with different weights, source-target overlaps and single-entry lists are rare.",
 ["src/path_calculator.rs","src/lib.rs"],
 [("initial labels keep the smaller weight per node","src/path_calculator.rs calc_path_multiple_sources_and_targets"),("direct source==target candidate","src/path_calculator.rs best_weight/meeting_node")],
 [("data_fwd/data_bwd, heaps","labels of both searches","src/path_calculator.rs PathCalculator")],
 ["calc_path_multiple_sources_and_targets (function and method)"])
p("C06","A reused calculator answers as a fresh one, after any history",
 "The answer of a path calculator depends only on the query and the prepared graph passed to it: after any sequence of earlier queries on the same calculator (found, not found, multi-source, refused with a panic, on other prepared graphs with the same number of nodes) the next query gives the same weight and node list as a newly created calculator. This holds for arbitrarily many queries on one calculator, also beyond four billion.",
 ["histories"],"all sequences of queries on one calculator",
 "Tests reuse a calculator for up to 100,000 queries on a single graph with a single query kind; switching graphs, panicking queries in between and wrap-around of the internal reset counter (2^32 queries) never happen.",
 ["src/path_calculator.rs","src/valid_flags.rs"],
 [("reset of heaps and validity marks at query start","src/path_calculator.rs calc_path_multiple_sources_and_targets"),("epoch counter with wrap-around clearing","src/valid_flags.rs invalidate_all")],
 [("valid_flag","current epoch; a node's label counts only if stamped with it","src/valid_flags.rs ValidFlags")],
 ["PathCalculator::calc_path, ::calc_path_multiple_sources_and_targets"])
p("C07","A prepared graph survives serialization unchanged",
 "Serializing a prepared graph with any Serde format and deserializing it yields a graph that answers every query with the same weight and node list, reports the same node ordering and the same node and edge counts, and serializes to the same bytes again. The same holds for an input graph: its edges, node count and frozen state are restored exactly.",
 ["inputs"],"all prepared graphs and input graphs (frozen or not)",
 "The tests store one three-edge graph and compare three counters; no restored graph is ever queried.",
 ["src/fast_graph.rs","src/input_graph.rs"],
 [("derived Serialize/Deserialize","src/fast_graph.rs FastGraph, FastGraphEdge; src/input_graph.rs InputGraph, Edge")],
 [("FastGraph fields","ranks, edges and offsets","src/fast_graph.rs")],
 ["bincode / serde_json round trip, then queries"])
p("C08","The 32-bit representation is faithful or refused, never altered",
 "Converting a prepared graph to the 32-bit representation and back (directly or through the serialize_32/deserialize_32 helpers) either yields a graph that answers every query with the same weight and node list, or fails loudly because some value does not fit. It never fails when all node and edge counts and all edge and shortcut weights are below 2^32 - 1, and it never silently changes a weight, a path or reachability.",
 ["inputs"],"all prepared graphs, in particular weights around 2^32",
 "One test converts a hand-filled struct and spot-checks fields; one stores a small graph and compares counters. Weights at the sentinel and the 2^32 boundary, including shortcut sums that cross it, are never queried after conversion.",
 ["src/fast_graph32.rs","src/lib.rs"],
 [("checked narrowing with the maximum as sentinel","src/fast_graph32.rs usize_to_u32 / u32_to_usize"),("serde helpers","src/lib.rs serialize_32, deserialize_32")],
 [("FastGraph32","u32 image of every field","src/fast_graph32.rs")],
 ["FastGraph32::new, convert_to_usize, serialize_32, deserialize_32, then queries"])
p("C09","Input graph editing follows its documented rules for every call sequence",
 "After any sequence of adding one- or two-way edges, freezing and thawing, a frozen input graph lists exactly one edge per ordered node pair that was added with a positive weight and distinct ends, with the smallest weight added, sorted by from and to, and its node count is one more than the largest node id among those edges. Adding reports how many directed edges were accepted (0, 1 or 2); adding or freezing while frozen and reading while not frozen panic and leave the graph as it was.",
 ["histories"],"all sequences of add_edge, add_edge_bidir, freeze, thaw and reads",
 "The tests try single short call sequences; interleavings of freeze/thaw with duplicates, loops, zero weights and refused calls are not explored.",
 ["src/input_graph.rs"],
 [("edge acceptance and node count","src/input_graph.rs do_add_edge"),("sort and dedup on freeze","src/input_graph.rs freeze/sort/remove_duplicate_edges"),("frozen flag checks","src/input_graph.rs check_frozen")],
 [("edges, num_nodes, frozen","the editing state","src/input_graph.rs InputGraph")],
 ["InputGraph::add_edge, add_edge_bidir, freeze, thaw, get_edges, get_num_nodes, get_num_edges"])
p("C10","Preparation is deterministic and independent of edge insertion order",
 "Preparing the same input graph with the same settings always produces the same prepared graph, byte for byte when serialized, in every process and thread and regardless of hash seeds or of what was prepared before. The order in which the edges were added, and edges that were dropped as loops, zero-weight or heavier duplicates, make no difference.",
 ["inputs","histories"],"all input graphs x all insertion orders x hash seeds x preceding activity",
 "One test prepares ten random graphs twice in one process; insertion orders, other processes' hash seeds and interference from earlier preparations are not varied.",
 ["src/fast_graph_builder.rs","src/input_graph.rs","src/node_contractor.rs"],
 [("ordered neighbour set and priority queue without hash-order dependence","src/fast_graph_builder.rs run_contraction"),("canonical edge order on freeze","src/input_graph.rs sort")],
 [("neighbors (BTreeSet)","nodes whose priority is updated, in id order","src/fast_graph_builder.rs run_contraction")],
 ["serialized bytes of prepare / prepare_with_params / prepare_with_order"])
p("C11","Writing an input graph to a text file and reading it back restores it",
 "For every frozen input graph, writing it in the plain or in the DIMACS text format and reading that file back with the matching reader gives an input graph with the same edges, weights and node count (the plain format has no place for nodes without edges at the end of the id range). A written DIMACS file uses 1-based node ids and states the true numbers of nodes and edges.",
 ["inputs"],"all frozen input graphs",
 "No test writes or reads back a graph; the map files are only read.",
 ["src/input_graph.rs"],
 [("writers","src/input_graph.rs to_file, to_dimacs_file"),("readers","src/input_graph.rs read_from_file, read_from_dimacs, read_arc_line")],
 [],["InputGraph::to_file/from_file, to_dimacs_file/from_dimacs_file, file contents"])
p("C12","The file readers accept exactly the documented text formats",
 "The plain reader builds the graph from all lines of the form 'a <from> <to> <weight>' and ignores all other lines; the DIMACS reader additionally shifts 1-based ids to 0-based, takes the node count from the problem line, and ignores empty and comment lines. A file that breaks the format (a malformed arc line, and for DIMACS an unknown line, an arc line before the problem line, a repeated or malformed problem line, ids outside 1..N, or an arc count other than stated) is refused with a panic, never read as a different graph.",
 ["inputs"],"all sequences of well-formed and malformed lines",
 "No test feeds the readers a malformed file or a DIMACS file at all; the maps exercise only well-formed plain files.",
 ["src/input_graph.rs"],
 [("line dispatch and validation","src/input_graph.rs read_from_dimacs, read_from_file, read_arc_line")],
 [],["InputGraph::from_file, from_dimacs_file"])
p("C13","File errors are never silent",
 "If writing an input graph to a file reports success, the file holds the complete graph; whenever any write fails (for example because the disk is full after any number of bytes), an error is reported. Reading a graph tolerates short and interrupted reads, and a read error is reported by a panic, never by returning a truncated graph.",
 ["fault_sequences"],"all points at which a write or read is cut short, interrupted or fails",
 "Tests never write graphs and cannot inject file errors.",
 ["src/input_graph.rs"],
 [("buffered writing with error propagation","src/input_graph.rs to_file, to_dimacs_file"),("line-wise buffered reading","src/input_graph.rs read_from_file, read_from_dimacs")],
 [],["return value of to_file/to_dimacs_file versus file contents; from_file/from_dimacs_file under faulty reads"])
p("C14","Huge weights never wrap around",
 "Edge weights and initial weights may have any value up to the maximum: whenever the shortest total weight is below the maximum weight it is reported exactly, and routes whose total would reach or exceed the maximum weight count as not existing. No query or preparation panics or reports a smaller weight because a sum overflowed, in release and in debug builds.",
 ["inputs"],"all input graphs and initial weights including values near the largest representable weight",
 "All test weights are small; sums never come near the largest representable value.",
 ["src/path_calculator.rs","src/witness_search.rs","src/node_contractor.rs"],
 [("weight sums in both searches and in stalling","src/path_calculator.rs"),("witness weight sums","src/witness_search.rs find_max_weight"),("shortcut weight sums","src/node_contractor.rs handle_shortcuts")],
 [],["prepare*/calc_path*/calc_path_multiple_sources_and_targets results"])
p("C15","Concurrent preparations and queries do not influence each other",
 "Any number of threads may query one shared prepared graph, each with its own calculator or through the stand-alone functions, while others prepare or serialize graphs, and several calculators may be used alternately in one thread. Under every interleaving each call returns exactly what it returns when run alone, nothing deadlocks, and the shared prepared graph stays unchanged.",
 ["schedules"],"all interleavings of calls on several threads, and all interleavings of calls on several calculators",
 "The tests are single-threaded and use one calculator per test process.",
 ["src/lib.rs","src/path_calculator.rs","src/fast_graph.rs","src/fast_graph_builder.rs"],
 [("no shared mutable state: all scratch data is owned by the calculator or the builder; queries take the graph by shared reference","src/path_calculator.rs PathCalculator, src/fast_graph_builder.rs FastGraphBuilder")],
 [],["results of calls under a controlled scheduler vs. the same calls run alone"])
p("C16","Shortcuts are only added where no equally good detour exists",
 "With an unlimited witness-search budget and a given node ordering, contracting a node adds an edge between two of its neighbours only if every other route between them through not yet contracted nodes that avoids the node is heavier, and never stores two edges for the same ordered node pair. Every edge of the prepared graph is an input edge or such a shortcut, so it has as many edges as the input graph when detours make all shortcuts unnecessary.",
 ["inputs","configurations"],"all input graphs x all node orderings",
 "Superfluous shortcuts leave all results correct, so no result-comparing test sees them; two unit tests check the shortcut set of one node in three tiny graphs.",
 ["src/node_contractor.rs","src/witness_search.rs","src/preparation_graph.rs"],
 [("witness check before adding a shortcut","src/node_contractor.rs handle_shortcuts"),("search continued across targets","src/witness_search.rs find_max_weight"),("parallel edges merged","src/preparation_graph.rs add_or_reduce_edge")],
 [("witness search tree","re-used for all targets of one source","src/witness_search.rs WitnessSearch")],
 ["get_num_out_edges / get_num_in_edges of prepare_with_order_with_params(.., usize::MAX)"])
p("C17","Invalid requests are refused and leave everything usable",
 "A node ordering that is not a permutation of the node ids (wrong length, unknown id, repeated id) is refused by an error or panic, and so are a query with an unknown node id, an empty source or target list, or a prepared graph whose node count differs from the calculator's; preparing an input graph that is not frozen panics. None of these ever returns an answer, a wrong-length ordering is reported as an error rather than a panic, and afterwards the same objects give correct results.",
 ["inputs","histories"],"all invalid requests around valid ones",
 "No test issues an invalid query or ordering.",
 ["src/fast_graph_builder.rs","src/path_calculator.rs","src/input_graph.rs"],
 [("order validation","src/fast_graph_builder.rs build_with_order_with_params, run_contraction_with_order"),("query assertions","src/path_calculator.rs calc_path_multiple_sources_and_targets")],
 [],["Result / panic of prepare_with_order*, calc_path*, prepare on unfrozen graphs"])
p("C18","Re-preparing with the recorded ordering reproduces the prepared graph",
 "The node ordering reported for any prepared graph is a permutation of its node ids, and preparing the same input graph with that ordering and the same contraction budget gives a prepared graph with identical serialized bytes. Using that ordering for a graph with the same nodes but other edges or weights gives exact results for that other graph.",
 ["inputs","histories"],"all input graphs x parameters, and all pairs of graphs with equal node count",
 "Two map tests re-prepare one map with its own order and compare a checksum; no test uses an order on a changed graph.",
 ["src/fast_graph_builder.rs","src/fast_graph.rs"],
 [("the two contraction loops must store the same edges","src/fast_graph_builder.rs run_contraction, run_contraction_with_order"),("inverse of ranks","src/fast_graph.rs get_node_ordering")],
 [("ranks","contraction position per node","src/fast_graph.rs")],
 ["get_node_ordering, prepare_with_order_with_params, serialized bytes"])
p("C19","Long paths and deeply nested hierarchies work at any size",
 "Preparing and querying work for long chains, rings, stars, ladders and grids of every size and for orderings that nest shortcuts arbitrarily deep: the exact distance and the complete node list are returned, without stack exhaustion in a thread of ordinary stack size. This holds equally for sparse node ids and after serialization.",
 ["inputs","configurations"],"all sizes of the structured families x sweep directions of the ordering x query endpoints",
 "Test graphs nest shortcuts only a few levels deep: 50-node random graphs and maps with heuristic orderings.",
 ["src/path_calculator.rs","src/fast_graph_builder.rs","src/witness_search.rs"],
 [("shortcut unpacking","src/path_calculator.rs unpack_fwd/unpack_bwd")],
 [],["prepare*/calc_path on structured families"])
p("C20","Works on 32-bit platforms, and stored graphs move between platforms",
 "On platforms with 32-bit words and without clocks, threads or files (WebAssembly) preparing and querying give the exact shortest distances for all weights below the maximum, routes whose total does not fit are treated as not existing, and nothing panics or wraps around. A prepared graph stored in the 32-bit representation on one platform is read on the other, whatever their word sizes, as a graph that answers every query with the same weight and node list.",
 ["inputs","configurations"],"all input graphs x orders x queries on a 32-bit machine; all graphs stored on one and read on the other platform",
 "The tests run on the 64-bit build machine only; the 32-bit representation is documented for exactly this use, but no test executes the library with 32-bit words.",
 ["src/lib.rs","src/constants.rs","src/fast_graph32.rs","src/path_calculator.rs","src/node_contractor.rs","src/witness_search.rs","src/fast_graph_builder.rs"],
 [("usize weights and marker values at both word sizes","src/constants.rs WEIGHT_MAX, INVALID_NODE, INVALID_EDGE"),("marker values translated when converting","src/fast_graph32.rs usize_to_u32/u32_to_usize"),("weight sums that may not fit","src/path_calculator.rs, src/witness_search.rs, src/node_contractor.rs")],
 [("FastGraph32","portable stored form","src/fast_graph32.rs")],
 ["the library compiled for wasm32, executed by node; bytes exchanged with the native build"])
p("C21","A reused calculator does not grow, and dropped results leave nothing",
 "However many queries one path calculator has answered or refused, its memory stays bounded by the size of the graph. Once their results are dropped, preparing, querying, converting, storing and reading graphs leave no memory, no open file and no running thread behind, however often they are repeated and whether they succeeded or were refused.",
 ["histories"],"all repeated uses of the interface and all mixes of queries on one calculator",
 "The tests look at results only; neither memory nor files nor threads are measured, and leftovers of one call are harmless until a service has run for days.",
 ["src/path_calculator.rs","src/valid_flags.rs","src/witness_search.rs","src/fast_graph_builder.rs","src/preparation_graph.rs","src/input_graph.rs"],
 [("scratch data allocated once and cleared per query","src/path_calculator.rs"),("heaps cleared per search","src/path_calculator.rs, src/witness_search.rs"),("files closed by ownership","src/input_graph.rs to_file, from_file")],
 [("heap_fwd/heap_bwd","search queues","src/path_calculator.rs PathCalculator")],
 ["live heap bytes, open files and threads of the process after n repetitions"])
p("C22","Logging observes, it never takes part",
 "The result of every preparation, query, conversion, reading and writing (including refusals, stored bytes and files) is the same at every log level and with or without a logger installed. The library writes nothing to the standard output or error streams itself.",
 ["configurations","inputs"],"all inputs x all log levels",
 "The tests run at one log level; log arguments are evaluated only when their level is enabled, so that a side effect or panic in them is seen in no test.",
 ["src/fast_graph_builder.rs","src/node_contractor.rs","src/input_graph.rs","src/path_calculator.rs"],
 [("debug!/log_enabled! statements of the preparation","src/fast_graph_builder.rs run_contraction, run_contraction_with_order")],
 [],["all results under log::set_max_level(..); the standard streams"])
p("C23","Debug and release builds behave alike",
 "For every input, a build with debug assertions and overflow checks gives the same results, the same refusals and the same stored bytes as a release build. No valid use makes a debug assertion or an overflow check fail.",
 ["inputs","configurations"],"all inputs x both build profiles",
 "The tests run in one build profile; debug assertions with side effects, debug-only branches and sums that wrap silently in release builds make the builds differ only on inputs the tests do not have.",
 ["src/preparation_graph.rs","src/path_calculator.rs","src/fast_graph_builder.rs","src/node_contractor.rs","src/witness_search.rs","src/input_graph.rs","src/valid_flags.rs"],
 [("debug assertions","src/**/*.rs debug_assert!"),("unsigned arithmetic on ids, ranks and weights","src/node_contractor.rs, src/witness_search.rs, src/path_calculator.rs")],
 [],["results and stored bytes of both builds, compared case by case"])
p("C24","Different ways to ask for the same thing agree",
 "The stand-alone functions, the methods of a calculator made by create_calculator or PathCalculator::new, and multi-source queries with one source and target give the same answers; functions with and without parameters agree when the parameters are the defaults; FastGraphBuilder and the prepare functions, and serialize_32/deserialize_32 and FastGraph32, produce the same bytes. Adding a two-way edge equals adding both directions, and copies, and input graphs that were thawed and frozen again, equal the original.",
 ["inputs","configurations"],"all input graphs x all pairs of equivalent requests",
 "The tests use each entry point on its own, most of them on one graph, and never compare them.",
 ["src/lib.rs","src/fast_graph_builder.rs","src/path_calculator.rs","src/fast_graph32.rs","src/input_graph.rs"],
 [("stand-alone functions create a calculator and delegate","src/lib.rs"),("default parameters","src/fast_graph_builder.rs Params::default, ParamsWithOrder::default")],
 [],["results and serialized bytes of equivalent requests"])
p("C25","Incomplete or damaged stored graphs are refused",
 "Storing a prepared graph, its 32-bit representation or an input graph through a writer that fails at any position reports an error and leaves the object unchanged, and storing or loading in arbitrarily small or interrupted pieces makes no difference. Loading data that ends early, or JSON in which a part is missing, of another type or out of range, gives an error: never a graph and never a panic.",
 ["fault_sequences","inputs"],"all stored objects x all positions at which a stream ends or fails x all missing or spoiled parts",
 "The tests store and load one small complete graph through memory.",
 ["src/fast_graph.rs","src/fast_graph32.rs","src/input_graph.rs","src/lib.rs"],
 [("derived and helper (de)serialization pass errors on","src/lib.rs serialize_32, deserialize_32; src/fast_graph32.rs")],
 [],["Result of serialization and deserialization over faulty streams"])
p("C26","Work grows no faster than the graph; queries do not scan it",
 "Building, freezing, thawing, reading, writing, storing, loading, converting and copying a graph and creating a calculator take work (instructions executed, bytes moved) proportional to the size of the graph up to logarithmic factors, and so does preparing sparse graphs such as chains, rings, trees and narrow strips, with about as many prepared edges as input edges. Preparing with a given order takes no more than finding the order. A query on such a prepared graph does work for the nodes of its answer plus an amount that hardly grows with the graph; adjacent nodes, equal nodes and unreachable targets do not make it scan the graph; earlier queries on the calculator do not make it slower. On grids, queries take a small part of the work of plain Dijkstra.",
 ["inputs"],"all families of sparse graphs x weights x numberings, each measured at sizes growing by factors of four",
 "The tests check results on small graphs and print durations without judging them.",
 ["src/lib.rs","src/node_contractor.rs","src/witness_search.rs","src/path_calculator.rs","src/valid_flags.rs","src/input_graph.rs","src/fast_graph_builder.rs"],
 [("preparation by lazy node contraction with bounded witness searches","src/fast_graph_builder.rs, src/node_contractor.rs, src/witness_search.rs"),("bidirectional upward search with stall on demand and early end","src/path_calculator.rs calc_path_multiple_sources_and_targets"),("constant time reset of search state","src/valid_flags.rs invalidate_all")],
 [],["number of executed basic blocks and moved bytes per call"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
