"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "src/solvers/exact.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=list(observe)))


AI = "abstract interpretation of the MIR: value numbering with loop summaries; "
TRUST = ("Decided on rustc's MIR of the current tree by an abstract interpreter (no execution, no solver). Trusted: rustc's MIR, the exporter, "
         "the models of library functions in sa/models.py. Floats are treated as reals without NaN. Constructs it cannot decide are listed as undecided in the evidence. ")

prop("C01", "Exact search looks at every tour",
     "Every exact solver which extends partial tours considers, for each partial tour, every vertex that is not in it yet, and leaves one out only when a lower bound proves that it cannot lead to a better tour. "
     "Every complete tour it evaluates visits every vertex exactly once.",
     ["inputs", "configurations"], "all graphs (any number of vertices, any weights) and all sequential, threaded and MPI variants of the search",
     "The tests compare results on a few 3 to 10 vertex graphs; a skipped branch only matters when the optimum lies in it.",
     [EX], [("recursive branch and bound", "src/solvers/exact.rs: second..sixth improved, threaded and MPI search functions")],
     AI + "induction over the recursion of the search functions",
     TRUST + "The induction hypothesis (a recursive call restores the prefix and only improves the best tour) is itself checked at every return.")
prop("C02", "The best tour found is never lost or mixed up",
     "In every exact solver the best cost and the best tour change together, only when a strictly cheaper complete tour has been found, and the pair that is returned is the best one seen. "
     "This includes the exchange of partial results between threads and between MPI processes.",
     ["inputs", "schedules", "configurations"], "all graphs, orders of exploration, thread schedules and numbers of processes",
     "Tests compare the final costs of small instances; a torn or overwritten incumbent needs particular weights or an interleaving.",
     [EX], [("update at the leafs of the search", EX), ("merge of the results of the threads", EX + ": threaded_solver"), ("merge of the MPI ranks", EX + ": static/dynamic_mpi_solver")],
     AI + "incumbent discipline at every leaf, merge and return",
     TRUST)
prop("C03", "The reported cost is the cost of the reported tour",
     "Whenever an exact solver stores or returns a tour, the cost that comes with it is the sum of the weights of the edges of exactly this closed tour, including the edge back to the start.",
     ["inputs", "configurations"], "all graphs and all exact solvers",
     "Tests check a few costs; a wrong partial sum shows only for certain tours.",
     [EX], [("partial cost carried down the recursion", EX), ("closing edge at the leafs", EX)],
     AI + "partial cost invariant by induction over the recursion",
     TRUST)
prop("C04", "Branches are pruned only by admissible lower bounds",
     "An exact solver discards a partial tour only if its cost plus a lower bound on the cost of completing it is not below the best cost known. "
     "A bound computed with a spanning tree or nearest neighbours counts only edges which a completion must pay for, and a cached bound is only reused for the set of vertices it was computed for.",
     ["inputs"], "all graphs, partial tours and incumbents",
     "An inadmissible bound cuts the optimum only for particular weights; random small tests often still find it.",
     [EX, "src/mst.rs"], [("pruning tests", EX), ("nearest neighbour bound", EX), ("MST bound and its cache", EX)],
     AI + "shape and scaling of every bound compared with the incumbent",
     TRUST + "That the bound's ingredients are the MST and the nearest neighbour minima is decided by value numbering; the mathematical fact that they bound the rest of a tour is assumed. A 64 bit hash identifying a vertex set is taken as collision free.")
prop("C05", "Brute force evaluates every permutation",
     "The brute force solvers evaluate every permutation of the vertices (up to rotation), starting with the sorted one, and stop only when there is no further one. "
     "The successor function turns a sequence into its lexicographic successor and reports false, leaving the sequence alone, exactly when there is none.",
     ["inputs"], "all sequences (also with equal elements) and all graphs",
     "The tests enumerate the permutations of one short sequence and solve three graphs.",
     [EX], [("permutation loop", EX + ": naive_solver, first_improved_solver"), ("successor", EX + ": next_permutation")],
     AI + "the loop's stepping, exits and incumbent; normal form of the successor's scans and swaps",
     TRUST)
prop("C15", "Prim builds a minimum spanning tree of the vertices not excluded",
     "Each of the three Prim variants (single threaded, multi threaded, priority queue), and prim() in every mode, starts with a vertex that is not excluded, then repeatedly adds the unused vertex with the cheapest edge to the tree, "
     "offers all edges of the new vertex to all remaining ones, never touches an excluded or used vertex again, stores every tree edge at both ends with the same cost, "
     "and stops only when no vertex can be reached any more. prim() excludes nothing.",
     ["inputs", "configurations"], "all graphs (also with infinite edges, equal weights and weight 0), all sets of excluded vertices and all variants",
     "The tests look at a few small graphs; a wrong relaxation or a missed vertex needs particular weights, sizes or excluded sets.",
     ["src/mst.rs"], [("generic Prim loop", "src/mst.rs: prim_with_excluded_node"), ("state of the candidates", "src/mst.rs: impls of FindMinCostEdge"), ("dispatch", "src/mst.rs: prim")],
     AI + "initial state, choice, inductive step and exits of Prim's loop",
     TRUST + "Prim's theorem itself (the cut property) is assumed. The raw pointer updates of the multi threaded variant are modelled as one write per index.")
prop("C16", "The 1-tree bound is the heaviest 1-tree over all vertices",
     "A 1-tree is the minimum spanning tree of all vertices but the special one plus the two cheapest edges of the special vertex (the only edge twice in a graph of two vertices), never an edge from the vertex to itself. "
     "The 1-tree lower bound is the largest weight of the 1-trees of all vertices in sequential, parallel and MPI mode; with MPI every vertex is handled by some process, and the bounds of all processes are combined by their maximum at the root.",
     ["inputs", "configurations"], "all graphs with at least two vertices, all special vertices, all modes and numbers of processes",
     "The tests check three small graphs; ties, the position of the cheapest edges and the division of the vertices between processes are not covered.",
     ["src/one_tree.rs", "src/mst.rs"], [("1-tree", "src/one_tree.rs: one_tree"), ("bound", "src/one_tree.rs: one_tree_lower_bound and its variants")],
     AI + "the selection of the two cheapest edges by the order types of a step, the maximum as normal form, the share of each process by telescoping",
     TRUST + "That a 1-tree bounds every tour from below (Held and Karp) is assumed.")
prop("C17", "Nearest neighbour always goes to the nearest unvisited vertex",
     "A nearest neighbour tour starts at the given vertex, always continues with a cheapest edge to a vertex not visited yet, visits all vertices, and its cost is the sum of these edges and the edge back to the start. "
     "Running it from n starts uses n distinct vertices and returns the cheapest of the tours with its own cost, in every mode; nearest_neighbour() and the MPI variant try every vertex, "
     "and all MPI processes end with the same cost and tour, those of the cheapest tour of all.",
     ["inputs", "configurations", "schedules"], "all graphs, starts, numbers of starts and processes, and orders of reduction",
     "The tests use one 5 vertex graph and never more than one process.",
     ["src/solvers/approximate/nearest_neighbour.rs"], [("greedy tour", "nearest_neighbour.rs: single_nearest_neighbour"), ("best start", "nearest_neighbour.rs: n_nearest_neighbour, nearest_neighbour"), ("MPI", "nearest_neighbour.rs: nearest_neighbour_mpi")],
     AI + "inductive step of the greedy tour, normal form of the choice of the best start, order types of the reduction operator, telescoping shares of the processes",
     TRUST)

FORM = AI + "closed formulas of the functions compared with the specification in normal form; a formula in another form is refuted only by a small countermodel of it"
prop("C06", "The threaded solver searches everything and keeps the best",
     "threaded_solver solves small instances sequentially. Otherwise each thread searches exactly the prefixes of its own piece of the prefix space, each one that contains no vertex twice, all with the cost of the prefix and the number of vertices as base; "
     "results of all searches are merged into the shared best tour while the lock is held, cost and tour together, only if strictly cheaper than the shared best at that moment; the result is read after all threads have ended.",
     ["inputs", "schedules", "configurations"], "all graphs, numbers of threads and interleavings of the threads",
     "The tests solve instances with fewer vertices than this machine has cores, which are solved sequentially, and one schedule of a few bigger ones.",
     [EX], [("threads", EX + ": threaded_solver, threaded_solver_generic")],
     AI + "summary of a thread's loop over its piece, its lock regions and the join",
     TRUST + "A value behind a lock is unknown each time the lock is taken, which covers all interleavings. Leaving a prefix out is accepted only if it is no valid prefix or costs at least the best tour. That the searches below the prefix are complete is C01-C04, the pieces are C07.")
prop("C07", "The prefixes are split without gaps or overlaps",
     "For every prefix length, number of vertices and number of workers smaller than the number of prefixes: starting each worker k at the first value of split_up_b_ary_number_into_n_chunks and going on with get_next_value until the second value of the pair is met or there is no successor, "
     "the workers together visit every prefix of this length exactly once. get_next_value returns the number following its argument (written in this base, also into its argument) and None exactly after the largest one.",
     ["inputs", "configurations"], "all numbers of digits, bases, digits and numbers of workers",
     "A gap loses a part of the search space: the threaded and the distributed solvers then miss the optimum only for instances where it lies there.",
     [EX], [("split", EX + ": split_up_b_ary_number_into_n_chunks, convert_to_b_ary_digits"), ("successor", EX + ": get_next_value")],
     AI + "closed formulas of the bounds, their contiguity by polynomial arithmetic with quotients; the successor by induction over the digits",
     TRUST + "Integers are unbounded: an overflow of basis^digits is not considered.")
prop("C08", "Only complete undirected graphs are accepted",
     "An instance is handed out by the parser only if in its graph every vertex has exactly one edge to every other vertex, no edge to itself or to a vertex that does not exist, and the same weight in both directions; "
     "every such graph is accepted, everything else (also malformed XML) is reported as an error and not as a panic. "
     "The three tests do what they say: all edges present, no two edges with the same ends, every edge has its reverse with the same weight.",
     ["inputs"], "all documents and all graphs (any number of vertices, any edge lists)",
     "The tests look at a handful of small graphs; the interesting violations sit at one edge of a large graph.",
     ["src/preconditions.rs", "src/parser.rs"], [("tests of the graph", "src/preconditions.rs"), ("combination", "src/parser.rs: do_conditions_hold"), ("gate", "src/parser.rs: parse_from_xml")],
     FORM, TRUST + "The XML deserialiser (quick_xml, serde) is taken as given.")
prop("C19", "Path, tour and graph measures mean what they say",
     "evaluate_path is the sum of the weights of consecutive edges, evaluate_circle adds the edge from the last to the first vertex, both are 0 for fewer than two vertices; "
     "is_metric holds exactly if no detour over a third vertex is shorter by more than the documented slack; is_hamiltonian_cycle accepts exactly the closed walks that visit every vertex once; "
     "the directed weight is the sum of all edge weights and the undirected weight half of it; add_undirected_edge adds the edge at both ends, and the degree counts the edges.",
     ["inputs"], "all graphs, all paths and all matrix types",
     "Solvers, bounds and tests rely on these measures; the tests evaluate them for a few graphs with up to five vertices.",
     ["src/datastructures/mod.rs", "src/parser.rs", "src/solvers/mod.rs"], [("path and tour", "src/datastructures/mod.rs: evaluate_path, evaluate_circle"), ("triangle inequality", "src/datastructures/mod.rs: is_metric"),
      ("graph weights", "src/parser.rs: directed_edge_weight, undirected_edge_weight, add_undirected_edge, vertex_degree"), ("tour test", "src/solvers/mod.rs: is_hamiltonian_cycle")],
     FORM, TRUST)
prop("C20", "Every matrix representation holds the same weights",
     "A new matrix of n vertices has no edges (infinite) and zero diagonal; get and set access exactly the entry named; a matrix made from a graph holds the weight of every edge at its place, one made from another matrix is equal to it entry by entry, "
     "and one made from points (sequentially or in parallel) holds the euclidean distance of every pair in both directions.",
     ["inputs", "schedules"], "all graphs, matrices and point sets, and any number of threads",
     "The tests convert graphs of two and three vertices, for which swapped or missing entries mostly do not show.",
     ["src/datastructures/vecmatrix.rs", "src/datastructures/nalgebra.rs"], [("VecMatrix", "src/datastructures/vecmatrix.rs"), ("NAMatrix", "src/datastructures/nalgebra.rs")],
     FORM + "; nested loops of writes are decoded into the set of written entries, coverage is decided by solving the index equations", TRUST)
prop("C13", "The approximate matching is perfect and improves edge by edge",
     "approx_min_cost_matching returns a matching in which every given vertex occurs exactly once, in every mode. Each step of the local search takes two edges and replaces them by the cheapest of the three pairings of their four vertices; "
     "with MPI every process searches on its own and all of them end with the matching of the smallest cost.",
     ["inputs", "configurations", "schedules"], "all graphs, all even lists of vertices, all numbers of tries and of processes, all shuffles",
     "The search is random: the tests see some shuffles of one graph, and never a second process.",
     ["src/solvers/approximate/matching.rs"], [("first matching", "matching.rs: randomized_matching"), ("step", "matching.rs: optimize_two_matching"), ("search", "matching.rs: improve_matching"), ("modes", "matching.rs: approx_min_cost_matching, mpi_improve_matching")],
     FORM, TRUST + "shuffle is taken as some permutation.")
prop("C18", "Christofides' tour is the Eulerian circuit without repetitions",
     "The multigraph holds every edge of the spanning tree of the graph and every edge of the matching, with multiplicity; the matching joins exactly the vertices of odd degree; the circuit uses every edge of the multigraph exactly once and is closed; "
     "the tour visits the vertices in the order in which the circuit first reaches them and returns to the start; the cost returned is that of this tour. The mode asked for is the mode of the tree and of the matching.",
     ["inputs", "configurations"], "all complete graphs (also with free edges), all spanning trees and matchings, all multigraphs with even degrees",
     "The tests look at a few small multigraphs; double edges, free edges and circles joined at a late position are what breaks.",
     ["src/solvers/approximate/christofides.rs"], [("composition", "christofides.rs: christofides, christofides_generic"), ("multigraph", "christofides.rs: fill_multigraph_with_mst_and_matching"), ("circuit", "christofides.rs: find_cycle, eulerian_cycle_from_multigraph"), ("shortcut", "christofides.rs: hamiltonian_from_eulerian_cycle")],
     FORM, TRUST + "That the tour is at most 1.5 times the optimum is not decided (the matching is a heuristic).")

prop("C09", "Every command runs what was asked for and prints its result",
     "run() solves the instance in the file named, and only if the parser accepts it; for every command it calls the algorithm asked for in the computation mode asked for (exact V0 to V6 sequentially, the threaded solver with threads, V0 and V1 with MPI; Christofides, nearest neighbour, 1-tree and MST in all modes), "
     "prints exactly the cost and tour or the bound this call returned, and the lower bound too if asked for. A file that cannot be read or is not accepted is an error, also of the process, and nothing is printed for it; there is no other error.",
     ["inputs", "configurations"], "all combinations of command, algorithm, mode and lower bound, and all files",
     "The command line driver has no tests at all: each combination would need one.",
     ["src/lib.rs", "src/main.rs"], [("dispatch", "src/lib.rs: run, exact_run, approx_run, lower_bound_run"), ("input", "src/lib.rs: get_tsp_instance"), ("exit", "src/main.rs: main")],
     AI + "run() interpreted once for each of the combinations, its output as a term compared with the result of the call expected",
     TRUST + "How the command line is read is C10. With MPI only the process with rank 0 is considered; V2 to V6 are not offered there.")
prop("C12", "Unchecked memory accesses stay in bounds and never race",
     "Every access that bypasses the compiler's checks (raw pointers, slices from raw parts, unchecked indexing) lies inside of the memory the pointer was made from, for every graph, row and matching that can reach it; "
     "nothing is written through a pointer made from a shared borrow; and what one iteration of a parallel loop writes, no other iteration reads or writes.",
     ["inputs", "schedules"], "all sizes of graphs and matchings (also odd and empty ones), all schedules of the threads",
     "Out-of-bounds accesses and data races are undefined behaviour: they mostly go unnoticed in a test run, and rustc does not check these accesses.",
     ["src/mst.rs", "src/solvers/approximate/matching.rs", "src/solvers/approximate/christofides.rs"],
     [("spanning tree", "src/mst.rs: MultiThreadedVecWrapper::update_minimal_cost"), ("matching", "matching.rs: improve_matching, par_improve_matching, mpi_improve_matching"), ("multigraph", "christofides.rs: fill_multigraph_with_mst_and_matching")],
     AI + "each raw access as (base, offset, extent), offsets bounded by linear arithmetic under the path's conditions in the function and, where it needs them, in its callers; the accesses of two iterations of a parallel loop compared",
     TRUST + "Lengths of messages received by MPI are not decided; the aliasing model of Rust is not decided beyond writes through shared borrows.")
prop("C11", "The same input gives the same result",
     "Apart from the places where chance is part of the algorithm (the shuffles of the matching heuristic, hence Christofides, and the choice of the start vertices of n_nearest_neighbour), the result of no public function depends on random numbers, the time, the environment, the number of processors, "
     "the random order of hash tables, earlier calls, addresses, or the schedule of threads. The threaded exact solver may depend on the number of processors and the schedule in which of several equally cheap tours it returns.",
     ["inputs", "schedules", "histories"], "all inputs, machines, runs and thread schedules",
     "A test that runs once, on one machine, cannot see that the next run differs.",
     ["src"], [("whole crate", "src: every public function, and everything it calls")],
     "Static analysis: flow analysis over the MIR of the whole crate (explicit flows, references, closures, function pointers and control dependence) from sources of nondeterminism to results; hash order and schedules are forgotten by sorting and by order-independent folds",
     "Library functions are sources by name (rand, time, env, thread counts, find_any, hash tables with RandomState, floating point sums in parallel, ...) and pass on labels otherwise. Messages of MPI are not considered sources.")
prop("C22", "Instance files are read and generated exactly",
     "A document is read field by field: name, source, description, doublePrecision, ignoredDigits and graph of the instance, the vertices of the graph, the edges of a vertex, and for an edge the target from its text and the weight from its attribute cost, exactly as written; a missing target, weight or graph is an error, and each field is written under the name it is read from. "
     "gen_matrix_fast with argument n prints one such document with n vertices in which vertex i has exactly one edge to each other vertex and none to itself, weighted with the euclidean distance of the two points.",
     ["inputs"], "all documents, and all sizes and all points (also coinciding ones) of generated instances",
     "The tests parse one document and never run the generator; a generated instance that the parser refuses, or weights that lose digits, show up only for particular points.",
     ["src/parser.rs", "utils/gen_matrix_fast/src/main.rs"], [("data types", "src/parser.rs: TravellingSalesmanProblemInstance, Graph, Vertex, Edge"), ("generator", "utils/gen_matrix_fast/src/main.rs: main, euclidean_distance")],
     AI + "the bodies that serde derives, summarised as a map from names to fields, and the document printed by the generator as a tree with loops in normal form",
     TRUST + "quick_xml (tokenising, unescaping, numbers) is taken as given; the generators written in Python are not covered.")
prop("C10", "The command line means what it says",
     "walky has the commands exact, approx and lower-bound; each takes the algorithm first and the file second. Every documented name of an algorithm (v0 to v6; nearest-neighbour, christofides; one-tree, mst, mst-queue) and of a mode (single-threaded, multi-threaded, with MPI also mpi) selects exactly what it names. "
     "-p/--parallelism selects the mode, single-threaded without it, for every command; -l/--lower-bound of approx selects the bound, none without it. No documented combination is refused.",
     ["inputs", "configurations"], "all command lines made of the documented commands, arguments and options",
     "The command line has no tests; each name, default and combination of options would need one.",
     ["src/cli.rs"], [("commands and options", "src/cli.rs: Cli, Commands"), ("names", "src/cli.rs: ExactAlgorithm, ApproxAlgorithm, LowerBoundAlgorithm, Parallelism")],
     AI + "the bodies that clap derives, summarised as a tree of commands, arguments, names and defaults, composed with the map from arguments to fields",
     TRUST + "How clap reads a command line given this tree is taken as given.")

prop("C21", "MPI: initialised once, same collectives on all ranks, no unmatched message",
     "With the feature mpi, in every command and in every parallel function: MPI is initialised at most once per run and used only between its initialisation and its end; all processes, whatever their rank, take part in the same sequence of collective operations (barrier, broadcast, reduction) with the same types; "
     "and every kind of message (tag and type) that a process sends to the root, or the root to a process, is received on the other side, and the other way round.",
     ["inputs", "schedules", "configurations"], "all commands and options, all ranks, all numbers of processes with at least two, all inputs",
     "There are no tests with MPI in the repository, and a mismatch shows only with several processes: as a process that hangs, or as an abort in the second of two phases.",
     ["src/lib.rs", EX, "src/solvers/approximate/nearest_neighbour.rs", "src/solvers/approximate/matching.rs", "src/one_tree.rs"],
     [("driver", "src/lib.rs: run, exact_run, approx_run, lower_bound_run"), ("solvers", "exact.rs: static_mpi_solver, dynamic_mpi_solver; nearest_neighbour.rs: nearest_neighbour_mpi"), ("matching", "matching.rs: approx_min_cost_matching, mpi_improve_matching, bootstrap_mpi_matching_calc"), ("bound", "one_tree.rs: one_tree_lower_bound_mpi")],
     "Static analysis: interprocedural exploration of the control-flow graphs (monomorphic MIR) per role (rank 0, another rank) with the typestate of the library; the automata of collective operations of both roles compared as languages, kinds of messages as sets",
     "The configuration mpi is only type-checked (there is no MPI library in the sandbox). The number, the order and the contents of messages and the lengths of buffers are not decided here (the protocols of the two exact solvers are decided by C06). Conditions other than those on the rank, on the command and on initialize() are free choices. Panics of single processes are not considered.")

NA = [
    ("C23", "A Christofides tour costs at most 1.5 times the optimum", "For metric instances the tour of the approximate solver costs at most one and a half times the cheapest tour.",
     "Bounds a ratio of two runtime quantities, and does not hold as stated: the matching is a randomised local search, not a minimum matching. What static analysis can decide of it (tree, odd vertices, perfect matching, circuit) is C13, C15 and C18.",
     ["src/solvers/approximate/christofides.rs"]),
    ("C24", "All exact solvers agree to the last bit", "On every instance all exact solvers print the same cost up to floating point rounding.",
     "A statement about rounding of sums in different orders. The checks treat floats as reals: over the reals it follows from C01 to C06; a bound on the rounding error depends on the weights.",
     [EX]),
    ("C25", "Instances of every size are solved without exhausting resources", "No instance that fits into memory makes walky panic by overflow, run out of stack or memory.",
     "Depends on runtime sizes (factorial running time, recursion depth n, basis^digits in u64/usize) which no bound in the source limits; the checks assume that integers do not wrap.",
     [EX, "src/solvers/approximate/christofides.rs"]),
    ("C26", "More threads make it faster", "The parallel modes take less time than the sequential ones.",
     "A runtime measurement; nothing in the source determines it.", ["src/computation_mode.rs"]),
    ("C27", "quick-xml and clap read what their documentation says", "The XML document and the command line are tokenised as the libraries document.",
     "Code of dependencies, which is modelled and not analysed here; the maps from fields and from arguments to values are decided by C22 and C10.",
     ["src/parser.rs", "src/cli.rs"]),
]
for i, t, s, w, f in NA:
    prop(i, t, s, ["inputs"], "all inputs", "It quantifies over all inputs.", f, [("code", f[0])], na=w)
