#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 lib/props.py"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
G = "lib/algorithms/global_mincut/"


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking", hook=None, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state]),
                  technique=technique, note=note, level=level))


ONLYUF = "The existing tests only exercise the sequential disjoint-set structure on two hand-written inputs; "

prop("C01", "Exact solvers return the weight of a global minimum cut",
     "For every undirected graph with at least two vertices and positive integer edge weights, each exact global minimum cut solver returns exactly the smallest total weight of edges whose removal separates the graph (0 if it is disconnected). The answer does not depend on the graph representation, the priority queue chosen, whether queue keys are limited, whether the cut is saved, the random seed, or whether the same graph was solved before, and the caller's graph is left unchanged.",
     ["inputs", "configurations"], "all weighted graphs, both graph representations, all queue/limiting/saving options, all seeds, repeated calls; weights up to 2^40 where the queue is not indexed by key",
     ONLYUF + "no min cut is ever computed; correctness quantifies over all graphs and option combinations.",
     [G + "noi_minimum_cut.h", G + "cactus/cactus_mincut.h", G + "minimum_cut_helpers.h", "lib/coarsening/contract_graph.h", "lib/coarsening/contraction_tests.h", "lib/data_structure/priority_queues"],
     [("CAPFOREST contraction loop", G + "noi_minimum_cut.h"), ("cut bound update after contraction", G + "minimum_cut_helpers.h")],
     ["value returned by the solver entry point"],
     "TLA+ contraction machine model-checked with TLC; answers of the real solvers on TLC-enumerated and random graphs validated by TLC against the machine's post-conditions",
     "Exhaustive for the abstract machine up to 4 (5) vertices; sampled conformance of the code (all graphs up to 5 vertices in the enumerated set, random structured graphs up to ~110 and blow-ups above 10000 vertices). A native oracle orders the records, TLC decides them.")
prop("C02", "A saved cut is a real cut of exactly the reported weight",
     "Whenever cut saving is enabled, after any global minimum cut solver (sequential or parallel, exact or inexact) returns, the marked vertices form a non-empty proper subset of the input graph's vertices. The total weight of the edges between marked and unmarked vertices equals the returned value.",
     ["inputs", "configurations", "schedules"], "all graphs, all solvers and options, any thread count, multilevel runs on more than 10000 vertices",
     ONLYUF + "sides travel through several contraction levels and only break for particular contraction histories.",
     [G + "minimum_cut_helpers.h", G + "viecut.h", G + "ks_minimum_cut.h", G + "noi_minimum_cut.h", "lib/parallel/algorithm"],
     [("side recorded on coarse graph and mapped back", G + "minimum_cut_helpers.h")], ["per-vertex cut flags after the call"],
     "TLA+ trace validation: side and value of every recorded solver run checked against MinCut!SideOK; machine invariant SideRealisesBest model-checked",
     "As C01; for graphs above 1500 vertices the side's weight is summed natively and TLC compares the sums.")
prop("C03", "Inexact solvers report a real cut, never less than the minimum",
     "For every graph, the heuristic and approximate sequential solvers terminate and return a value that is at least the weight of a minimum cut. The (2+eps)-approximation additionally returns at most twice the minimum cut weight plus one.",
     ["inputs", "configurations"], "all graphs, representations, seeds",
     ONLYUF + "no heuristic is ever run.",
     [G + "viecut.h", G + "padberg_rinaldi.h", G + "matula_approx.h", G + "ks_minimum_cut.h", "lib/coarsening/label_propagation.h"],
     [("contraction only above the bound", G + "padberg_rinaldi.h"), ("coarsening by label propagation", G + "viecut.h")], ["value returned"],
     "TLA+ contraction machine with the Matula threshold (ApproxAtEnd) model-checked; recorded runs validated by TLC",
     "As C01.")
prop("C04", "Parallel solvers are correct for every thread count and schedule",
     "The shared-memory parallel exact solver and the parallel all-cuts solver return exactly the minimum cut weight, and the parallel inexact solver never returns less, for every number of threads and every interleaving. They terminate, and saved sides are real cuts of the reported weight.",
     ["inputs", "configurations", "schedules"], "all graphs, 1-8 threads (more threads than cores included), all schedules",
     ONLYUF + "no parallel code is built at all.",
     ["lib/parallel/algorithm/exact_parallel_minimum_cut.h", "lib/parallel/algorithm/parallel_cactus.h", "lib/parallel/coarsening", "lib/parallel/data_structure/union_find.h", G + "viecut.h"],
     [("parallel CAPFOREST with shared union-find", "lib/parallel/algorithm/exact_parallel_minimum_cut.h"), ("parallel contraction", "lib/parallel/coarsening/contract_graph.h")], ["value and side after the call"],
     "TLA+ contraction machine (any order of safe contractions) model-checked; recorded multi-threaded runs validated by TLC",
     "Schedules of whole solver runs are those of the OS with 1-8 threads; the shared structures underneath get controlled schedules in C12 and C19. Value-indexed queues bound the weights to totals below 2*10^6.")

prop("C05", "The cactus represents exactly the set of all minimum cuts",
     "For every graph with at least two vertices, the all-minimum-cuts computation (sequential and parallel) returns the minimum cut weight. With cut saving it also returns a cactus graph and a mapping of the input vertices to its nodes such that the minimum cuts of the cactus, pulled back along the mapping, are exactly the minimum cuts of the input graph; for a disconnected graph the nodes are the connected components. The mapping and the per-node vertex lists agree, and the cactus written to a file is the one returned.",
     ["inputs", "configurations", "schedules"], "all graphs with total weight below 2*10^6, both builds, all edge selection strategies, any thread count",
     ONLYUF + "a missing or spurious minimum cut only shows on graphs with a particular nesting of cuts.",
     [G + "cactus/cactus_mincut.h", G + "cactus/recursive_cactus.h", G + "cactus/graph_modification.h", G + "cactus/heavy_edges.h", "lib/parallel/algorithm/parallel_cactus.h", "lib/data_structure/mutable_graph.h"],
     [("recursive cactus over residual SCC chains", G + "cactus/recursive_cactus.h"), ("re-inserting contracted vertices and cycles", G + "cactus/heavy_edges.h")], ["graph returned by findAllMincuts", "cactus file"],
     "TLA+ definition of all minimum cuts and of the cuts of a cactus; recorded cacti of the real code validated by TLC, definitions model-checked on all small graphs",
     "Sets of minimum cuts are compared completely (kernels up to about 16 blocks). Without cut saving only the shape of the cactus is promised by the code and checked.")
prop("C06", "The best minimum cut is best among all minimum cuts",
     "For every graph, the most balanced minimum cut reported is a minimum cut whose smaller side has the most vertices among all minimum cuts, and the lowest conductance cut is a minimum cut of least conductance. The reported crossing edges are exactly the edges between the marked and unmarked vertices.",
     ["inputs", "configurations"], "all graphs, both builds",
     ONLYUF + "optimality ranges over all minimum cuts of the graph.",
     [G + "cactus/balanced_cut_dfs.h", G + "cactus/most_balanced_minimum_cut.h", G + "cactus/cactus_mincut.h"],
     [("depth-first search over cactus edges and cycles", G + "cactus/balanced_cut_dfs.h")], ["per-vertex cut flags", "returned edge list"],
     "TLA+ definition (MostBalanced / LowestConductance over all minimum cuts); recorded cuts of the real code validated by TLC",
     "As C05.")
prop("C07", "The dynamic minimum cut is exact after every insertion and deletion",
     "Starting from any graph and for any history of edge insertions and deletions, the dynamic minimum cut structure reports exactly the minimum cut weight of the current graph after every operation. Every cut that its current cactus represents is a minimum cut of the current graph and at least one is represented. After initialisation, after a deletion that lowers the weight, and through insertions following them, it represents all minimum cuts. Deleting an edge that does not exist changes nothing.",
     ["histories", "inputs", "configurations"], "all histories of insertions and deletions on simple graphs (previously cached cacti reused, cache overflow included), sequential and parallel builds",
     ONLYUF + "a stale or over-contracted cactus only shows some operations later.",
     [G + "dynamic/dynamic_mincut.h", G + "dynamic/cactus_path.h", G + "cactus/recursive_cactus.h", "lib/data_structure/mutable_graph.h", "lib/data_structure/flow_graph.h"],
     [("contract the cactus path of an inserted edge", G + "dynamic/cactus_path.h"), ("rebuild from the flow between the ends of a deleted edge", G + "dynamic/dynamic_mincut.h"), ("cache of older cacti", G + "dynamic/dynamic_mincut.h")], ["value returned by addEdge/removeEdge", "getCurrentCactus"],
     "TLA+ state machine DynamicMinCut (graph, represented cuts, cache) model-checked with TLC; behaviours simulated from it and random histories replayed on the code and validated by TLC after every operation",
     "All histories on 4 vertices for the machine; sampled histories of up to 60 operations for the code, some with 2000 operations to overflow the cache and some on cacti with hubs of degree above 100. Completeness after a deletion that keeps the weight is not promised by the code and not claimed.",
     state=[("out_cactus", "represented minimum cuts", G + "dynamic/dynamic_mincut.h"), ("cachedCactus", "cacti of earlier, larger cut values", G + "dynamic/dynamic_mincut.h")])

M = "lib/algorithms/multicut/"
prop("C08", "Branch and reduce finds a minimum multiterminal cut",
     "For every undirected graph with positive weights and every choice of terminals, the multiterminal cut computation returns, when run exactly, the smallest total weight of edges whose removal separates all terminals from each other; run inexactly it never returns less. The result does not depend on branching rule, edge selection, problem queue order, branching factor, number of threads or schedule, and the computation terminates. A written solution assigns every vertex to one block, every terminal to its own, and cuts edges of exactly the returned weight.",
     ["inputs", "configurations", "schedules"], "all graphs and terminal sets (several vertices per terminal included), all branching and queue options, 1-8 threads",
     ONLYUF + "no multiterminal cut is ever computed; a lost subproblem or unsafe reduction only shows on particular graphs and schedules.",
     [M + "multiterminal_cut.h", M + "branch_multicut.h", M + "kernelization_criteria.h", M + "maximum_flow.h", M + "graph_contraction.h", M + "edge_selection.h", M + "problem_queues/per_thread_problem_queue.h"],
     [("branch on an edge or vertex", M + "branch_multicut.h"), ("reductions", M + "kernelization_criteria.h"), ("isolating cut bounds", M + "maximum_flow.h")], ["value returned by multicut", "solution file"],
     "TLA+ branch-and-reduce machine (all orders of reductions and branching) model-checked with TLC; runs of the real code under many configurations validated by TLC against the exact optimum",
     "Optimum computed by TLC up to about 10 vertices and 4-7 terminals; larger graphs only compared between configurations. Thread schedules are those of the OS here; the queue and incumbent protocol gets controlled schedules in C19.")

D = "lib/data_structure/"
prop("C09", "Maximum flow returns a maximum flow and a minimum cut source set",
     "For every graph, source and set of sinks the push-relabel computation terminates with the value of a maximum flow between the source and all sinks together. The flow left on the graph's edges is a valid flow of that value, the returned source set separates the source from the sinks with exactly that weight and is the largest such set connected with the source, and the graph is unchanged. With a limit, the value is exact if below the limit and otherwise between the limit and the maximum.",
     ["inputs", "configurations"], "all graphs, source/sink sets, limited, plain and thread-private variants, relabeling depths, reuse of the same object on several problems and graphs",
     ONLYUF + "gap and global relabeling steps only matter on particular residual graphs.",
     ["lib/algorithms/flow/push_relabel.h", D + "mutable_graph.h"],
     [("discharge, relabel, gap, global relabeling", "lib/algorithms/flow/push_relabel.h"), ("source set by search from the sinks", "lib/algorithms/flow/push_relabel.h computeSourceSet")], ["value, source set and edge flows after solve_max_flow_min_cut"],
     "TLA+ push-relabel machine (any order of steps) model-checked incl. termination; recorded flows and source sets of the real code validated by TLC through flow/cut duality",
     "Machine: all graphs on 4 (5) vertices. Code: random graphs up to 60 vertices, weights up to 2^38 and all small graphs; every judged run carries its own optimality certificate.",
     state=[("m_distance", "labels", "lib/algorithms/flow/push_relabel.h"), ("flow", "flow per directed edge and problem", D + "mutable_graph.h")])
prop("C10", "Mutable graph operations preserve the weighted quotient graph",
     "For every graph and every history of operations on the mutable graph (contracting edges, sparse edges and vertex sets, deleting and adding edges and vertices, changing weights, resetting contained vertices, simplifying, copying, serializing and deserializing, converting to and from the static representation), the graph afterwards is the weighted graph the operations define: same blocks of original vertices, same summed weight between every two blocks. Adjacency is symmetric with consistent reverse edges, weighted degrees equal the incident weight, and the contained vertices and current positions partition the original vertices.",
     ["histories", "inputs"], "all operation histories on all graphs (parallel edges included), through every conversion of the representation",
     ONLYUF + "broken reverse edges or stale degrees need particular sequences of contractions and deletions.",
     [D + "mutable_graph.h", D + "graph_access.h"],
     [("contraction in place", D + "mutable_graph.h contractEdge/contractVertexSet"), ("serialize/deserialize", D + "mutable_graph.h")], ["public accessors after every operation"],
     "TLA+ state machine MutableGraph (labels, pair weights, contents) model-checked with TLC; recorded histories of the real class validated step by step by TLC",
     "All histories on 4 vertices for the machine; random histories of up to 30 operations for the code, every intermediate graph compared completely. new_node beyond the initial size is only checked for adjacency, not for original vertex bookkeeping.",
     state=[("vertices", "adjacency with reverse edge positions", D + "mutable_graph.h"), ("contained_in_this", "original vertices of a contracted vertex", D + "mutable_graph.h")])
prop("C11", "Sequential disjoint sets represent the generated equivalence",
     "For every history of operations on the sequential disjoint set structure, union reports whether it joined two different sets. Two elements have the same representative exactly if the unions so far connect them, the representative is a member of the set, and n() is the number of sets after every operation; a copy behaves like the original.",
     ["histories"], "all sequences of union and find on any number of elements",
     "The existing tests check block-wise unions only; the property quantifies over all histories.",
     [D + "union_find.h"], [("path compression and union by rank", D + "union_find.h")], ["return values of Union, Find, n"],
     "TLA+ partition machine (single-thread instance of UnionFind) model-checked; all small programs enumerated by TLC and random histories run on the code and validated by TLC",
     "All programs of up to 4 calls on 3 elements, random histories of up to 40 calls on up to 30 elements.")
prop("C12", "Concurrent disjoint sets are linearizable under every schedule",
     "For every interleaving of concurrent union, same-set and find calls on the parallel disjoint set structure, every call terminates and the calls' answers can be explained by some sequential order that respects real time. When all calls are finished the representatives and the number of sets are exactly those of the partition joined by the unions.",
     ["schedules", "histories"], "all interleavings at the granularity of single memory accesses, any number of threads",
     "The existing tests are sequential; the parallel class is not even compiled.",
     ["lib/parallel/data_structure/union_find.h"], [("linking by compare-and-swap", "lib/parallel/data_structure/union_find.h Union"), ("path halving by compare-and-swap", "lib/parallel/data_structure/union_find.h Find")], ["return values and logical times of the calls"],
     "TLA+ machine of the algorithm at memory access granularity model-checked (safety and termination); the real class run under controlled schedules (every access a scheduling point) and its histories checked for linearizability by TLC",
     "Machine: 3 elements, 2-3 threads, up to 2 calls each, all interleavings. Code: programs enumerated by TLC and random ones under random, priority-based and round robin schedules. Schedules are sequentially consistent; weaker memory orders are out of reach.",
     state=[("m_parent", "parent pointers", "lib/parallel/data_structure/union_find.h")])
prop("C13", "Priority queues always deliver an element of largest key",
     "For every legal history of insert, delete, deleteMax and key changes on any of the five priority queue classes, maxElement, maxValue and deleteMax deliver an element of largest current key. size, empty, contains and getKey always show exactly the elements inserted and not yet removed with their latest keys; in the heaps, inserting a contained element has no effect, and a copied queue continues like the original.",
     ["histories"], "all legal histories, any number of nodes, keys up to the bucket span (heaps: up to 2^62)",
     ONLYUF + "ordering errors only show for particular heap shapes.",
     [D + "priority_queues"], [("sift up and down with element positions", D + "priority_queues/vecMaxNodeHeap.h"), ("bucket swap on delete with offsets", D + "priority_queues/fifo_node_bucket_pq.h deleteNode")], ["answers of every interface call"],
     "TLA+ machine of the heap and both bucket layouts refining an abstract queue, model-checked; recorded histories on all five classes replayed by TLC on the abstract queue",
     "Machine: all histories on 4 (5) nodes and 3 (2) keys. Code: all heaps of six nodes with keys 0..2 followed by any deletion or key change and draining, and random histories of up to 90 calls on up to 40 nodes.",
     state=[("m_heap, m_elements, m_element_index", "heap positions and back pointers", D + "priority_queues/vecMaxNodeHeap.h"), ("m_bucket_offset", "removals so far per bucket", D + "priority_queues/fifo_node_bucket_pq.h")])
prop("C14", "Core decomposition computes core numbers and core graphs",
     "For every graph, weighted or not, the core decomposition assigns every vertex its core number (the largest k such that the vertex lies in a subgraph of minimum unweighted degree k). Its arrays list the vertices sorted by core number, with matching positions and with the start of every core. createCoreGraph(k), for any k that has a non-empty core, returns a largest connected component of the k-core: all its edges with their weights, the vertices in their original order.",
     ["inputs"], "all graphs, all non-empty cores",
     ONLYUF + "no core is ever computed.",
     ["lib/algorithms/misc/core_decomposition.h", "lib/algorithms/misc/strongly_connected_components.h", "lib/tools/graph_extractor.h"],
     [("bucket sort by degree with in-place swaps", "lib/algorithms/misc/core_decomposition.h batagelj_zaversnik")], ["arrays of k_cores", "graph returned by createCoreGraph"],
     "TLA+ machine of the bucket decomposition model-checked on all graphs of 4 (5) vertices; decompositions and core graphs of enumerated and random graphs validated by TLC",
     "Code: enumerated graphs up to 5 vertices and random graphs up to about 70 vertices.",
     state=[("buckets, vertices, position", "vertices sorted by current degree", "lib/algorithms/misc/core_decomposition.h")])

prop("C18", "Connectivity routines find exactly the components they claim",
     "For every graph and every flow on it, the strong components of the residual graph are exactly the classes of mutually reachable vertices, numbered from zero with their sizes, also when the object is reused. Connected components, the largest component and extracted blocks are exact: induced edges and weights with correct mappings. Breadth first search gives shortest distances and a farthest vertex. The articulation point reduction only merges vertices that a single vertex of their block separates from every terminal, and never merges two terminals.",
     ["inputs", "histories"], "all graphs, all maximum flows on them, all terminal sets, fresh and reused objects",
     ONLYUF + "residual graphs and cut vertices are never looked at.",
     ["lib/algorithms/misc/strongly_connected_components.h", "lib/tools/graph_extractor.h", "lib/algorithms/misc/find_articulation_points.h", "lib/algorithms/misc/graph_algorithms.h"],
     [("path-based strong components with explicit stacks", "lib/algorithms/misc/strongly_connected_components.h"), ("low points with explicit backtracking", "lib/algorithms/misc/find_articulation_points.h")], ["component labels and sizes", "extracted graphs and mappings", "union-find of the reduction"],
     "TLA+ machine of the path-based strong component algorithm model-checked on all digraphs of 3 (4) vertices; recorded results on enumerated and random graphs with real flows validated by TLC against reachability",
     "Code: enumerated graphs up to 5 vertices and random graphs up to about 70 vertices. find_bridges and maximal_clique are not used anywhere and are not covered.",
     state=[("m_roots, m_unfinished", "tentative roots and open vertices", "lib/algorithms/misc/strongly_connected_components.h")])

prop("C15", "Files are read for what they mean and written so that they read back",
     "Reading a METIS file (formats none, 0, 1, 10, 11; comments, any blanks between numbers, loops, either line end, unterminated last line) gives exactly the graph the file describes, in both graph types: its vertices, edges and weights, without loops and vertex weights. A written graph, weighted or not, reads back as the same graph. Cut files hold the side of every vertex in order; vectors read back; temporal graphs come back complete, ordered by time, entries of one time in file order.",
     ["inputs"], "all well-formed files of these formats, all graphs and vectors",
     ONLYUF + "no file is ever read or written, and parsing slips depend on rare layouts.",
     ["lib/io/graph_io.h"],
     [("character cursor over a line with pending edge target", "lib/io/graph_io.h readGraphWeighted"), ("ordering of temporal entries", "lib/io/graph_io.h readTemporalGraph")], ["graphs and vectors returned", "files written"],
     "TLA+ machine of the character-level line reader model-checked on all lines up to length 6 (8) against the meaning of their tokens; recorded reads, writes and round trips of real files validated by TLC",
     "Code: files for enumerated graphs up to 5 vertices and random graphs up to 120 vertices, random layouts. DIMACS files, several vertex weights and malformed files are not covered.",
     state=[("cursor and pending target", "position in the line", "lib/io/graph_io.h")])

prop("C21", "Every reduction, flow, branching and search step keeps the optimal multicut",
     "Every single step of the multiterminal cut solver preserves the optimum: contracting by degree, triangle, connectivity, articulation point, neighbourhood or flow rules, contracting isolating cuts, and deleting edges between terminals leave the best solution below the bound exactly as cheap, never cheaper, and never merge two terminals. Lower and upper bounds enclose the optimum, and the partition belonging to an upper bound is a valid solution of at most that weight. Branching leaves subproblems of which at least one is as good as the problem branched on, unless the solution found already is. Local search keeps terminals in place and lowers the weight by exactly the gain reported.",
     ["inputs", "histories", "configurations"], "all graphs, terminal sets, sequences of steps from any reachable state, upper bounds above the optimum, all edge selections, random sources of flows",
     ONLYUF + "end-to-end runs on small graphs hide a lost optimum because local search usually finds it anyway.",
     [M + "kernelization_criteria.h", M + "maximum_flow.h", M + "graph_contraction.h", M + "problem_management.h", M + "local_search.h", M + "edge_selection.h", "lib/algorithms/misc/equal_neighborhood.h"],
     [("reductions", M + "kernelization_criteria.h"), ("isolating cuts and source sets", M + "maximum_flow.h"), ("branching", M + "problem_management.h"), ("local search", M + "local_search.h")], ["problem before and after every step", "solutions and bounds"],
     "TLA+ branch-and-reduce machine with every reduction rule as an action, model-checked with TLC (also exhibiting the unsoundness of the published triangle rule); step by step traces of the real code validated by TLC against the exact optimum of every intermediate problem",
     "Code: graphs of 3 to 12 vertices, 2 to 5 terminals, 1 to 6 steps. Values of the private rules are reached by a driver that opens the class; if a refactoring renames them the check falls back to the public entry points.",
     state=[("terminals, deleted_weight, lower_bound, upper_bound", "reduced problem and its bounds", M + "multicut_problem.h")])

prop("C19", "Parallel branch and reduce loses no subproblem and ends only when all are solved",
     "For every number of threads and every interleaving: each subproblem that is queued is taken by exactly one thread or discarded because its lower bound reaches a bound some solution attains; no subproblem vanishes, is solved twice or is added after the end; the end of the search is declared only when no subproblem is queued or worked on, and it is always declared; the solution handed back has the reported weight and no better one exists, under every queue order, edge selection and branching rule.",
     ["schedules", "histories", "inputs", "configurations"], "all interleavings of the workers' accesses to the shared state, thread counts, queue orders, graphs and terminal sets",
     "No test of the repository runs the multiterminal cut solver. The failures need one worker to wake up exactly between two reads of another one that is about to declare the end.",
     [M + "branch_multicut.h", M + "problem_management.h", M + "problem_queues/per_thread_problem_queue.h"],
     [("Poll, Finish, Inc, Dec, Done", M + "branch_multicut.h"), ("idle count, bound", M + "problem_management.h"), ("Add, Pull, Drop, counter", M + "problem_queues/per_thread_problem_queue.h")],
     ["queue, bound, idle and end events in the order in which they happen", "solution and its value"],
     "TLA+ model of the worker loop and the queues checked with TLC (safety and termination; the original two-read end test exhibits the lost subproblem); event traces of the real code under controlled schedules replayed by TLC on the model's state",
     "Model: 2 to 3 threads, 4 subproblems (termination with 2 threads). Code: 2 or 3 threads, random, priority-based and round-robin schedules at the granularity of memory accesses to the solver's shared state, sequentially consistent. One MPI process; several are the subject of C22.",
     state=[("pq, sizes, sendProblem, unfinished", "held subproblems", M + "problem_queues/per_thread_problem_queue.h"), ("idle_threads, is_finished", "idle count, end", M + "problem_management.h")])

prop("C22", "Several processes lose no subproblem, all stop, and agree on the optimum",
     "Branch and reduce on several MPI processes: for every number of processes and threads, every interleaving and every delay of messages, a subproblem that one process sends is received once by the process that asked for it and solved there or discarded because of a bound some solution attains; no process stops while it holds a subproblem, works on one or one is on its way to it; every process stops; and all processes return the same valid solution, of the reported weight, that no other solution undercuts, also when a graph falls apart into several components that are solved one after the other.",
     ["schedules", "histories", "inputs", "configurations"], "all interleavings of the threads of all processes and all message delays (messages of one sender and tag stay in order), process and thread counts, queue orders, branching rules, graphs and terminal sets",
     "No test of the repository runs the multiterminal cut solver, with or without MPI. The failures need a message that is overtaken by the end of the search, or a thread that looks at the queues just before another one receives a subproblem.",
     [M + "mpi_communication.h", M + "branch_multicut.h", M + "problem_management.h", M + "multiterminal_cut.h"],
     [("Ask, Hear, Receive, Bye", M + "mpi_communication.h"), ("Pick, InHand, Decide, After, Ended", M + "branch_multicut.h"), ("branches sent away", M + "problem_management.h")],
     ["queue, bound and end events of every process, subproblems sent and received, barrier", "value and solution of every process"],
     "TLA+ model of the processes, their messages and the end of the search checked with TLC (safety and termination; the original code's unsolicited end message, old look at the queues and early promise exhibit lost subproblems and deadlock); traces of the real code, its processes run as threads over a message layer with random delays under controlled schedules, replayed by TLC on the model's state",
     "Model: 2 to 3 processes, 1 to 2 threads each, 3 to 5 subproblems. Code: 2 or 3 processes with 1 or 2 threads in one address space (the random generator is shared between them), graphs up to 13 vertices or two components of up to 11; sending never blocks; sequentially consistent memory.",
     state=[("mailboxes, done flags", "messages on their way", M + "mpi_communication.h"), ("unfinished, sent_done, mpi_num_done, is_finished", "held subproblems, end of the search", M + "branch_multicut.h")])

prop("C20", "The command line tools do what their options and files say",
     "mincut, mincut_parallel, multiterminal_cut, dynamic_mincut (sequential and parallel) and largest_cc print and write, for every graph file and every combination of the documented options: as many results as iterations and thread counts were asked for, each the value the chosen algorithm promises, whatever ran before in the same process; a cut file that realises the printed value; a multiterminal solution that keeps the terminals and weighs the printed optimum; the number of insertions, deletions and changes of the minimum cut; a largest component in the order of its vertices. Terminals are the ones asked for (named, k of largest degree, k random ones that differ, k as far apart as possible, or a partition file, whole or its first vertices), and the area grown around each is taken layer by layer from what other terminals leave, up to the size asked for.",
     ["inputs", "configurations", "histories"], "all graph files, terminal choices, area sizes, partition files, update files, seeds, thread counts and combinations of the documented options",
     "No test of the repository starts a tool or chooses terminals; which state one iteration leaves to the next, and which options meet, is a product of many choices of which any single run shows one.",
     ["app/mincut.cpp", "app/multiterminal_cut.cpp", "app/dynamic_mincut.cpp", "app/largest_cc.cpp", M + "multiterminal_cut.h setOriginalTerminals", "lib/algorithms/global_mincut/algorithms.h"],
     [("Claim, Pop, Switch", M + "multiterminal_cut.h addSurroundingAreaToTerminals"), ("TopOK, DistantOK", M + "multiterminal_cut.h topKTerminals, distantTerminals"), ("MinCutTool, MultiTool, DynTool, ComponentTool", "app/mincut.cpp, app/multiterminal_cut.cpp, app/dynamic_mincut.cpp, app/largest_cc.cpp")],
     ["RESULT lines, exit status and written files of the tools", "area of every vertex after the choice of terminals"],
     "TLA+ model of terminals and the areas grown around them checked with TLC (growing over other areas is exhibited as wrong); output and files of the real tools, started with generated files and options, and terminals chosen by the real code judged by TLC against the definitions of the specification",
     "Model: all graphs of 4 (5) vertices, 2 (3) terminals. Code: graphs up to 60 vertices (9 for multiterminal and dynamic runs); terminals far apart only on connected graphs with fewer terminals than vertices; the tools are built with the command line parser of shim/ (the tlx submodule is not in the repository).",
     state=[("terminalMapping", "mapping", M + "multiterminal_cut.h"), ("term_strings, top_k, random_k, distant_terminals, bfs_size, preset_percentage, partition_file", "how, k, b, pct, ids, pos", "lib/common/configuration.h")])

prop("C16", "Reductions never lose the minimum cuts, whatever the schedule",
     "CAPFOREST, sequential with every priority queue and parallel under every interleaving of its threads, joins only vertices whose connectivity is at least the bound it was given. The Padberg-Rinaldi tests keep at least one minimum cut below the limit, and every one of them when all minimum cuts are wanted, in both versions, whatever the order in which threads reach the vertices; the separate tests for heavy edges and heavy triangles join no two vertices that a cut below their limit separates. The number of blocks reported is the number of blocks.",
     ["schedules", "inputs", "configurations"], "all graphs, bounds, start vertices, priority queues, thread counts and interleavings",
     ONLYUF + "A wrong join only shows if the scan order is disturbed between two particular reads, and then only if no later step hides it.",
     ["lib/parallel/algorithm/exact_parallel_minimum_cut.h", "lib/algorithms/global_mincut/noi_minimum_cut.h", "lib/coarsening/contraction_tests.h", "lib/parallel/coarsening/contraction_tests.h"],
     [("Pop, Mark, Edge, Queue", "lib/parallel/algorithm/exact_parallel_minimum_cut.h parallel_modified_capforest"), ("Heavy, Half, Triangle, Paths", "lib/coarsening/contraction_tests.h, lib/parallel/coarsening/contraction_tests.h")],
     ["partition of the vertices after every call"],
     "TLA+ models of the parallel CAPFOREST (every interleaving on all graphs of 4 vertices; the original queue race is exhibited) and of the Padberg-Rinaldi joins, checked with TLC; partitions computed by the real code, sequential and under controlled OpenMP schedules, judged by TLC against all cuts",
     "Models: 4 vertices, weights up to 1 (2), 2 threads; joins: 4 vertices, weights up to 3. Code: graphs up to 9 vertices, 2 or 3 threads, random and priority-based schedules at the granularity of memory accesses, sequentially consistent.",
     state=[("visited, r_v, pq", "visited, rv, key", "lib/parallel/algorithm/exact_parallel_minimum_cut.h"), ("contracted", "marked", "lib/parallel/coarsening/contraction_tests.h")])

prop("C17", "Contraction builds exactly the quotient graph, whatever the schedule",
     "Contracting a graph by any partition, however it is given (disjoint sets, clustering) and carried out (vertex set by vertex set, by hashing, full matrix, with the contested edge of two large blocks), in both graph types, sequentially and under every interleaving of threads, gives a graph with one vertex per block in which two blocks are adjacent exactly when an edge joins them, once in each direction, with the sum of the weights and matching reverse edges; the positions recorded for the vertices are the blocks. Moving vertices out of clusters leaves a consistent clustering.",
     ["schedules", "inputs", "configurations"], "all graphs, partitions, graph types, contraction routines, thread counts and interleavings",
     ONLYUF + "no graph is ever contracted, and lost updates need two threads in one statement.",
     ["lib/coarsening/contract_graph.h", "lib/parallel/coarsening/contract_graph.h", "lib/data_structure/mutable_graph.h"],
     [("Take, Edge, AddSum, Single, First, Second", "lib/parallel/coarsening/contract_graph.h contractGraphSparse"), ("vertex set contraction", "lib/data_structure/mutable_graph.h")],
     ["contracted graph, positions of the vertices"],
     "TLA+ model of the parallel contraction checked with TLC under every interleaving (an unlocked sum and unreserved edge slots are exhibited as wrong); contractions of the real code, sequential and under controlled OpenMP schedules, judged by TLC against the definition of the quotient graph",
     "Model: all graphs of 4 (5) vertices, 3 blocks, 2 threads. Code: graphs up to 14 vertices, some with 101 to 128; 2 or 3 threads. The hash table is the one of shim/ (the growt submodule is not in the repository).",
     state=[("new_edges, my_keys, cur_degrees", "table, keys, pos", "lib/parallel/coarsening/contract_graph.h")])

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as h:
        for p in P:
            h.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
         "hooks": {"guard": "VIECUT_VERIFICATION_HOOKS", "enable": "harness/hx_proto.cpp and harness/hx_dist.cpp define the guard before they include the solver and implement viecut_hook (lib/common/verification_hooks.h); all other drivers use the public API with the hooks off", "source_commits": ["7518e02"]},
         "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in {n["property"] for n in NA}],
         "not_applicable": NA,
         "notes": "Specifications in spec/ (TLA+, TLC), drivers in harness/, orchestration in lib/ and bin/; see DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
