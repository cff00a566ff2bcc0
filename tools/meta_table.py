TREES = ["pydatastructs/trees/binary_trees.py", "pydatastructs/trees/heaps.py", "pydatastructs/trees/m_ary_trees.py",
         "pydatastructs/trees/space_partitioning_trees.py"]
LIN = ["pydatastructs/linear_data_structures/arrays.py", "pydatastructs/linear_data_structures/linked_lists.py",
       "pydatastructs/linear_data_structures/algorithms.py"]
MISC = ["pydatastructs/miscellaneous_data_structures/queue.py", "pydatastructs/miscellaneous_data_structures/stack.py",
        "pydatastructs/miscellaneous_data_structures/disjoint_set.py", "pydatastructs/miscellaneous_data_structures/multiset.py",
        "pydatastructs/miscellaneous_data_structures/segment_tree.py", "pydatastructs/miscellaneous_data_structures/sparse_table.py",
        "pydatastructs/miscellaneous_data_structures/binomial_trees.py", "pydatastructs/miscellaneous_data_structures/algorithms.py"]
GRAPH = ["pydatastructs/graphs/adjacency_list.py", "pydatastructs/graphs/adjacency_matrix.py",
         "pydatastructs/graphs/algorithms.py", "pydatastructs/graphs/graph.py"]
STR = ["pydatastructs/strings/trie.py", "pydatastructs/strings/algorithms.py"]
UTIL = ["pydatastructs/utils/misc_util.py"]
PTANOTE = ("Static over-approximation: a clean verdict covers every input, call order and number of calls for the Python "
           "backend, up to the stated assumptions (caller's callables do not reach into the structure); constructs the "
           "analysis cannot resolve are listed in the evidence as undecided.")

PROPS = [
 dict(id="P01", title="Read-only operations never change the structure they inspect",
      statement="Searching, peeking, traversing, indexing, iterating over, measuring, querying or printing any data structure "
                "leaves every part of that structure exactly as it was. The only exceptions are the documented "
                "amortised representations: path compression in the disjoint-set forest and the interval tree that is built on first use.",
      over=["inputs", "histories"], qtext="every structure, every reachable state, every read-only operation and argument",
      why="Tests observe a handful of states and only the fields they assert on; a query that disturbs a pointer, a cached size "
          "or a node's data shows up only later, in another operation.",
      files=LIN[:2] + MISC[:7] + TREES + GRAPH[:2] + STR[:1],
      mech=[("search/bounds/rank/select/traversal", "trees/binary_trees.py"), ("peek/front/rear", "miscellaneous_data_structures/queue.py"),
            ("__getitem__/search/__str__", "linear_data_structures/linked_lists.py"), ("query", "miscellaneous_data_structures/segment_tree.py")],
      technique="interprocedural points-to and effect analysis of most-general clients", note=PTANOTE),
 dict(id="P02", title="Algorithms and constructors do not modify the inputs they are given",
      statement="Every function that computes a result from a caller's array, string, list or graph, and every constructor that builds "
                "a structure from the caller's list or array, leaves that argument unchanged, and the result "
                "shares no mutable part with it that a later operation on the result would change. Functions documented to work in place (the sorts) are the exception, "
                "and node or tree objects handed to a structure become parts of it.",
      over=["inputs"], qtext="every algorithm, every implementation choice and every input",
      why="Tests compare the returned value and rarely look at the argument afterwards; several algorithms here destroyed their input graph unnoticed.",
      files=LIN + GRAPH + STR + MISC[5:6] + TREES[3:],
      mech=[("graph algorithms", "graphs/algorithms.py"), ("array algorithms", "linear_data_structures/algorithms.py"),
            ("constructors taking lists", "linear_data_structures/arrays.py"), ("string matching", "strings/algorithms.py")],
      technique="interprocedural points-to and effect analysis of most-general clients", note=PTANOTE),
 dict(id="P03", title="A rejected operation leaves the structure unchanged",
      statement="Whenever an operation on a data structure rejects its arguments or its state by raising one of the errors it signals "
                "explicitly (popping from an empty structure, an index outside the list, an unknown vertex, an invalid range or key), "
                "no part of the structure has been changed at that point.",
      over=["inputs", "histories"], qtext="every operation with an explicit rejection, on every path that reaches it",
      why="Tests check that the error is raised, not that contents, sizes and links are as before; the paths that mutate first need unusual states.",
      files=LIN[:2] + MISC[:5] + TREES + GRAPH[:2],
      mech=[("popleft/popright/extract", "linear_data_structures/linked_lists.py"), ("pop/push", "miscellaneous_data_structures/stack.py"),
            ("join/rotate", "trees/binary_trees.py"), ("add_edge", "graphs/adjacency_list.py")],
      technique="effect analysis: may-write set on every path to each rejecting raise", note=PTANOTE),
 dict(id="P04", title="Separate instances never share or leak mutable state",
      statement="Operating on one instance of a data structure never changes another instance nor any state shared by the library as a whole, "
                "and no operation hands out a list, dictionary or set that the structure itself continues to rely on.",
      over=["inputs", "histories", "programs"], qtext="every pair of instances, every interleaving of operations on them",
      why="Sharing through default arguments, class attributes or aliased containers appears only when two instances live at once in a particular order.",
      files=LIN + MISC + TREES + GRAPH + STR,
      mech=[("constructors' default arguments", "linear_data_structures/arrays.py"), ("neighbors", "graphs/adjacency_list.py"),
            ("traversal results", "trees/binary_trees.py"), ("class attributes", "utils/misc_util.py")],
      technique="points-to and effect analysis with allocation phases", note=PTANOTE),
 dict(id="P05", title="A supplied comparator alone decides the order",
      statement="Wherever the library accepts a comparator (sorting, searching, bounds, permutations, search trees, priority queues), the relative order "
                "of two caller-supplied keys is decided only by calling that comparator on the two keys, in every operation and in every structure derived from "
                "the original, and never by a built-in comparison of the keys or of the data stored with them.",
      over=["inputs", "programs"], qtext="every operation taking or inheriting a comparator, every comparator and key type",
      why="Tests use the default comparator or keys whose natural order coincides with it; a bypassed comparator needs a non-natural order to show.",
      files=TREES[:1] + TREES[2:3] + LIN[2:] + MISC[:1] + UTIL,
      mech=[("comparator attribute", "trees/binary_trees.py"), ("_comp", "utils/misc_util.py"), ("comp parameters", "linear_data_structures/algorithms.py"),
            ("PriorityQueue comp", "miscellaneous_data_structures/queue.py")],
      technique="taint-style dataflow of user keys into ordering comparisons over resolved callees",
      note=PTANOTE + " Documented exception: the binomial-heap priority queue takes no comparator; Cartesian-tree priorities are natural."),
 dict(id="P06", title="An option selects exactly the documented choice or is refused",
      statement="Wherever a name selects an algorithm, an implementation, a data structure, a traversal order or a heap property, each documented name runs "
                "that choice's own implementation and yields its result (for a heap property, its order), leaving the option out runs the documented default, and any other name is refused with "
                "an exception: it never yields None and never silently runs a different choice.",
      over=["inputs", "configurations"], qtext="every option of the public API, every documented value and every other string",
      why="Tests use documented names and check results that several implementations would produce alike; names outside the list are sampled once at most.",
      files=GRAPH[2:4] + STR[1:] + MISC[:2] + MISC[7:] + TREES[:2],
      mech=[("algorithm= of graph functions", "graphs/algorithms.py"), ("find algorithm", "strings/algorithms.py"), ("implementation=", "graphs/graph.py"),
            ("implementation=", "miscellaneous_data_structures/queue.py"), ("heap_property", "trees/heaps.py"), ("traversal order", "trees/binary_trees.py")],
      technique="abstract interpretation with a complement-of-strings domain over the dispatch code; reachable-function sets per choice",
      note=PTANOTE + " Implementations are recognised by the names of the functions or classes reached; where no such name exists the choice is reported as undecided."),
 dict(id="P07", title="A requested backend is honoured or refused, never ignored",
      statement="Asking any public structure or algorithm for the C++ backend either yields the object or result of the C++ counterpart of that very API or is refused "
                "with an exception before anything of the caller's is modified; it never silently runs Python, never returns None or a constant. "
                "Asking for (or defaulting to) the Python backend never yields a C++ object.",
      over=["configurations", "inputs"], qtext="every public class and function that takes a backend, on every path",
      why="Only some APIs are tested on both backends, with ordinary arguments; a result is right on either backend, so a silently ignored request goes unnoticed.",
      files=UTIL + LIN + TREES + GRAPH + MISC + STR,
      mech=[("raise_if_backend_is_not_python", "utils/misc_util.py"), ("backend dispatch in __new__", "trees/binary_trees.py"),
            ("backend dispatch of algorithms", "linear_data_structures/algorithms.py"), ("_backend dispatch", "graphs/algorithms.py")],
      technique="abstract interpretation of backend dispatch with provenance of results (library object versus extension object)", note=PTANOTE.replace(" for the Python backend", "")),
 dict(id="P08", title="Parallel algorithms give the same outcome under every schedule",
      statement="The algorithms that hand work to several threads (parallel merge and brick sort, matrix multiplication, breadth first search, topological sort, minimum spanning trees) behave as if "
                "the work were done by one thread: parts of it that may run at the same time never touch anything that one of them changes, the algorithm never goes on with results that are not there yet, "
                "nothing is left running when it returns, and an exception raised in any part (by the caller's comparator, operation or data) reaches the caller.",
      over=["schedules", "inputs"], qtext="every number of threads, every interleaving of the jobs, every job that raises",
      why="Jobs are so short in tests that they practically never overlap, and tests pass comparators and operations that do not raise.",
      files=LIN[2:] + GRAPH[2:3],
      mech=[("merge_sort_parallel, brick_sort_parallel, matrix_multiply_parallel", "linear_data_structures/algorithms.py"),
            ("_generate_layer, _find_min, _job", "graphs/algorithms.py")],
      technique="may-happen-in-parallel and effect analysis over the points-to result; typestate of every future",
      note=PTANOTE + " Two jobs that touch the same object conflict unless the indices they use are shown to differ; where the analysis cannot tell, the pair is listed as undecided and no alarm is raised."),
 dict(id="P09", title="Results are reproducible: no hidden inputs, no outside effects",
      statement="Repeating the same calls with the same arguments gives the same results and the same structures in every process: apart from the random priorities of treaps and the random "
                "levels of skip lists, nothing depends on random numbers, on the clock, on hash values or on the iteration order of sets, on object identities or addresses, on "
                "the environment, or on the completion order of parallel jobs; and no operation prints, reads or writes files, or changes settings of the process.",
      over=["inputs", "schedules", "configurations"], qtext="every operation and algorithm, every process and hash seed",
      why="Tests run in one process with a fixed hash seed and compare canonicalised results.",
      files=LIN + GRAPH + TREES + MISC + STR,
      mech=[("component and traversal orders", "graphs/algorithms.py"), ("random priorities", "trees/binary_trees.py"), ("random levels", "linear_data_structures/linked_lists.py"),
            ("parallel algorithms", "linear_data_structures/algorithms.py")],
      technique="interprocedural purity analysis: every call leaving the library and every unordered iteration is classified", note=PTANOTE),
 dict(id="P10", title="Linked lists stay exact sequences under every operation",
      statement="Every operation of the singly, doubly and circular linked lists, and of the stack, queue and priority queue kept in a linked list, turns the "
                "sequence of elements into exactly the one its description names: insertion (at an index, before or after a node, at an end) adds the new element at that place, removal "
                "takes out exactly the element at that place and returns it, look-ups change nothing and find what is there. Afterwards following the links from the head gives that sequence and ends, the tail is "
                "its last element, backward links mirror forward ones, circular lists close, and the size counts it. Valid indices (negative ones included) never fail; others are refused.",
      over=["inputs", "histories"], qtext="every length of list, every index and every node passed",
      why="Tests build short lists in one order; a link, tail or size that is wrong only for a particular position (the last one, the second of two) surfaces operations later.",
      files=LIN[1:2] + MISC[:2],
      mech=[("insert_at/extract/insert_after/insert_before", "linear_data_structures/linked_lists.py"), ("circular overrides", "linear_data_structures/linked_lists.py"),
            ("LinkedListQueue", "miscellaneous_data_structures/queue.py"), ("LinkedListStack", "miscellaneous_data_structures/stack.py")],
      technique="shape analysis (abstract interpretation with materialisation over a zone domain)",
      note="Every length and index at once; assumes lists start well formed (the operations establish that themselves) and that nodes passed in belong to the list. Unmodelled constructs yield no verdict and are listed as undecided."),
 dict(id="P11", title="Search trees keep their links, key order and subtree sizes",
      statement="Every insertion into and deletion from a binary search tree, splay tree, Cartesian tree or treap turns its in-order sequence of (key, data) pairs into exactly the one described: "
                "an absent key is added at its place in the comparator's order, a present key gets the new data, a deleted key disappears and all other pairs stay, deleting an absent key changes nothing and says so. "
                "Afterwards each child link is mirrored by the child's parent link, the root index names the node without a parent, and order statistic trees count each subtree correctly, also "
                "when the array behind the tree moves its nodes. A search finds a present key, reports an absent one as absent, and returns the right parent.",
      over=["inputs", "histories"], qtext="every tree shape, key, comparator outcome, and every point at which the backing array is compacted or grown",
      why="Tests insert a few keys in fixed orders; a parent link, size or root index that is wrong for one particular shape (two children, the root, just before compaction) shows operations later.",
      files=TREES[:1] + UTIL, mech=[("insert/delete/search", "trees/binary_trees.py"), ("_splay, rotations", "trees/binary_trees.py"),
            ("_bubble_up, _trickle_down", "trees/binary_trees.py"), ("index remapping after append/delete", "trees/binary_trees.py")],
      technique="shape analysis (abstract interpretation of tree fragments with materialisation, order facts and symbolic subtree sizes)",
      note="Every shape and key at once; assumes trees start well formed and the backing dynamic array works as documented. Unmodelled constructs yield no verdict and are listed as undecided. Red-black and AVL rebalancing is outside of the claim."),
 dict(id="P12", title="Arrays, and the stacks and queues kept in them, are exact sequences",
      statement="A one dimensional array holds exactly the elements it was built from or that were stored into it (converted to its type), each at its position; positions outside of 0..size-1 are refused. "
                "Appending to a dynamic array puts the element behind the last filled position, deleting empties exactly the given position, and neither loses, repeats or reorders other elements, also "
                "when the array grows or is contracted; size, number of elements and last filled position stay right. ArrayStack is last in, first out and ArrayQueue first in, first out (double ended ones at both ends), with "
                "front and rear delimiting the elements; an empty one refuses removals, a single ended queue refuses the other end.",
      over=["inputs", "histories"], qtext="every size, every pattern of filled and empty positions, every position and every point at which the array grows or is contracted",
      why="Tests fill a few positions and check one contraction; an element that is lost only when the array is contracted with a gap at a particular place shows much later.",
      files=LIN[:1] + MISC[:2],
      mech=[("append/delete/_modify", "linear_data_structures/arrays.py"), ("ArrayStack", "miscellaneous_data_structures/stack.py"), ("ArrayQueue", "miscellaneous_data_structures/queue.py")],
      technique="abstract interpretation of list segments of symbolic length (segment domain over a zone domain)",
      note="Every size and pattern of gaps at once; assumes arrays start well formed and stack and queue elements are not None. Load factors are any number. fill on a dynamic array is outside of the claim. Unmodelled constructs yield no verdict and are listed as undecided."),
 dict(id="P13", title="Graphs hold exactly the vertices and edges put into them",
      statement="add_vertex adds exactly the given vertex and changes nothing when its name is taken; add_edge makes the target adjacent to the source and only that, with the cost given last as the cost of the edge (an edge "
                "added again without a cost keeps the one it has), and is refused with ValueError when an end is missing; remove_edge removes exactly that edge and its cost; remove_vertex removes the vertex, every edge "
                "from and to it and their costs, and nothing else. is_adjacent, neighbors, get_edge, num_vertices and num_edges agree with each other and with this, in both representations, self loops included; new vertices share no state.",
      over=["inputs", "histories"], qtext="every graph and every vertex or pair of vertices of it, equal ones included",
      why="Tests build two or three small graphs; an edge or cost that is lost only for a self loop, for a second direction or for a vertex in a particular place shows in no sample.",
      files=GRAPH[:2] + UTIL[:1],
      mech=[("AdjacencyList", "graphs/adjacency_list.py"), ("AdjacencyMatrix", "graphs/adjacency_matrix.py"), ("AdjacencyListGraphNode", "utils/misc_util.py")],
      technique="abstract interpretation of graphs as lazily split adjacency and cost facts over named, generic and summary vertices",
      note="Judges the graph by its own queries. Assumes that vertex names do not clash with attributes of graph or vertex, that a_b names one pair only, and that the vertices added have only vertices of the graph as neighbours. Unmodelled constructs yield no verdict and are listed as undecided."),
 dict(id="P14", title="Tries hold exactly the strings inserted and not deleted",
      statement="insert makes exactly the given string a member of the trie; delete removes exactly the given string, answers True when it was a member and None when it was not, and leaves the trie as it was in that case; no "
                "other member is gained or lost by either. is_inserted answers whether the string is a member, is_present whether some member starts with it (for a trie that holds nothing, the empty prefix counts as present), and strings_with_prefix lists every member that starts "
                "with the prefix, the prefix itself included when it is a member, each once, in any order. After a delete no prefix is present that no member has. Queries change nothing, and new tries share no state.",
      over=["inputs", "histories"], qtext="every trie and every string, the empty one and ones with repeated characters included",
      why="Tests insert and delete one list of words; a word lost only when a shorter or longer one with the same beginning is deleted first, or a prefix left behind, shows for particular sets of words.",
      files=["pydatastructs/strings/trie.py"] + UTIL[:1],
      mech=[("Trie.insert/delete/is_present/is_inserted/strings_with_prefix", "strings/trie.py"), ("TrieNode", "utils/misc_util.py")],
      technique="abstract interpretation of tries as lazily split child and end-of-string facts along the characters of one unknown string",
      note="Every trie; the string given to the operation has up to three characters (four in the thorough tier), all unknown, in every pattern of equal and different ones, and other strings are seen to one character below the node where they leave it (two below its end): what goes wrong only for longer ones is outside of the analysis. Unmodelled constructs yield no verdict and are listed as undecided."),
 dict(id="P15", title="Disjoint set forests keep the partition, multisets the counts",
      statement="make_set adds one singleton with its key and data and does nothing when the key is there; union merges exactly the two sets of its keys, the root of the larger one becoming the root; make_root makes its key the "
                "root of its set; no other set gains, loses or swaps a key, and no other set's root changes. find_root answers the root, find_size the number of keys of the set, disjoint_sets every set exactly once; unknown keys "
                "are refused with KeyError and change nothing. A multiset counts every element as often as it was added and not removed; removing an absent one changes nothing; count, membership, length and the tree behind "
                "the bounds agree with that. New forests and multisets share no state.",
      over=["inputs", "histories"], qtext="every forest and every key or pair of keys, equal and unknown ones included; every multiset and element",
      why="Tests build two forests of eight keys; a size that is wrong only for a key in the middle of a tree, or an element lost only when it returns after its last removal, shows in no sample.",
      files=["pydatastructs/miscellaneous_data_structures/disjoint_set.py", "pydatastructs/miscellaneous_data_structures/multiset.py"] + UTIL[:1],
      mech=[("DisjointSetForest", "miscellaneous_data_structures/disjoint_set.py"), ("Multiset", "miscellaneous_data_structures/multiset.py"), ("Set", "utils/misc_util.py")],
      technique="abstract interpretation of forests as lazily split parent facts with symbolic sizes (linear terms over a zone domain), and of multisets as symbolic counts",
      note="Parents are followed among up to four keys (paths of up to three steps; for disjoint_sets exactly up to three keys; six and five in the thorough tier); the number of further keys below them is arbitrary. Sizes of keys that are not roots and the order of disjoint_sets are not judged. The tree behind a multiset is taken to behave as a set (P11). Unmodelled constructs yield no verdict and are listed as undecided."),
]

WHY_NUM = "Only a few sample inputs are compared with expected outputs."
NA = [
 dict(id="N01", title="Shortest path algorithms return minimal distances",
      statement="For every graph the distances reported by Dijkstra, Bellman-Ford, Floyd-Warshall and Johnson equal the true shortest path lengths.",
      over=["inputs"], qtext="every weighted graph", why=WHY_NUM, files=GRAPH[2:3], mech=[("shortest_paths", "graphs/algorithms.py")],
      reason="Optimality of computed weights is an arithmetic fact about arbitrary graphs; no structural clause of it is necessary and sufficient beyond those claimed elsewhere."),
 dict(id="N02", title="Minimum spanning trees have minimal total weight",
      statement="For every connected weighted graph the returned tree spans all vertices and has minimal weight.",
      over=["inputs"], qtext="every weighted graph", why=WHY_NUM, files=GRAPH[2:3], mech=[("minimum_spanning_tree", "graphs/algorithms.py")],
      reason="Minimality quantifies over all spanning trees of runtime weights; out of reach of dataflow or shape analysis."),
 dict(id="N03", title="Maximum flow equals the minimum cut",
      statement="The value returned for source and sink is the maximum flow of the network.",
      over=["inputs"], qtext="every capacity network", why=WHY_NUM, files=GRAPH[2:3], mech=[("max_flow", "graphs/algorithms.py")],
      reason="Numerical optimality over runtime capacities."),
 dict(id="N04", title="Balanced trees stay balanced over every history",
      statement="After any sequence of insertions and deletions an AVL tree satisfies its balance condition and a red-black tree its colour conditions.",
      over=["histories"], qtext="every sequence of operations", why="Tests run a few fixed sequences.", files=TREES[:1], mech=[("AVLTree, RedBlackTree", "trees/binary_trees.py")],
      reason="Global numeric tree invariants over unbounded histories need an inductive proof with an arithmetic solver, not static analysis."),
 dict(id="N05", title="String matching finds exactly the occurrences",
      statement="Every string matching algorithm returns exactly the positions at which the pattern occurs.",
      over=["inputs"], qtext="every text and pattern", why=WHY_NUM, files=STR[1:], mech=[("find", "strings/algorithms.py")],
      reason="Correctness of failure tables, hashes and shift rules is an inductive fact about string contents."),
 dict(id="N06", title="Range queries return the aggregate of the range",
      statement="Static and dynamic range queries return the function's value over exactly the requested range.",
      over=["inputs", "histories"], qtext="every array, function, range", why=WHY_NUM, files=MISC[4:6] + MISC[7:], mech=[("query", "miscellaneous_data_structures/algorithms.py")],
      reason="Index arithmetic over recursive halving relates runtime quantities a non-solver static argument cannot bound."),
 dict(id="N07", title="The C++ backend behaves like the Python backend",
      statement="Every structure and algorithm gives the same results with either backend and never corrupts memory.",
      over=["inputs", "configurations"], qtext="every operation with both backends", why="Only some structures are tested on both backends.",
      files=["pydatastructs/graphs/_backend/cpp/AdjacencyListGraph.hpp"], mech=[("C++ extension modules", "pydatastructs/*/_backend/cpp")],
      reason="Behavioural equivalence of two implementations over all inputs is not decidable by a structural rule here."),
]
