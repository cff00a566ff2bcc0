"""Checks P06, P07, P09: dispatch on options, backends, determinism (engine 1)."""
import re

from . import clients, facts
from .effects import _facts, opname
from .program import Program

GIMP, GSET, AL = clients.GIMP, clients.GSET, clients._AL
STRI = "from pydatastructs.strings import *\nfrom pydatastructs.trees.m_ary_trees import *\n"

# ---------------------------------------------------------------- P06 options
# name, setup, expression with %s, {choice: markers of its own implementation},
# kind ("func": implementation recognised by the name of a reached function,
# "class": by the class of the result), default choice, allowed dependencies
_T = "BinaryTreeTraversal(s)"
OPTS = [
    ("minimum_spanning_tree", GSET, "minimum_spanning_tree(s, %s)",
     dict(kruskal=["kruskal"], prim=["prim"]), "func", None, {}, ["parallel"]),
    ("minimum_spanning_tree_parallel", GSET, "minimum_spanning_tree_parallel(s, %s, INT())",
     dict(kruskal=["parallel", "kruskal"], prim=["parallel", "prim"]), "func", None, {}, []),
    ("strongly_connected_components", GSET, "strongly_connected_components(s, %s)",
     dict(kosaraju=["kosaraju"], tarjan=["tarjan"]), "func", None, {}, []),
    ("shortest_paths", GSET, "shortest_paths(s, %s, STRV())",
     dict(bellman_ford=["bellman_ford"], dijkstra=["dijkstra"]), "func", None, {}, []),
    ("all_pair_shortest_paths", GSET, "all_pair_shortest_paths(s, %s)",
     dict(floyd_warshall=["floyd_warshall"], johnson=["johnson"]), "func", None, {}, []),
    ("topological_sort", GSET, "topological_sort(s, %s)", dict(kahn=["kahn"]), "func", None, {}, ["parallel"]),
    ("topological_sort_parallel", GSET, "topological_sort_parallel(s, %s, INT())",
     dict(kahn=["kahn", "parallel"]), "func", None, {}, []),
    ("max_flow", GSET, "max_flow(s, STRV(), STRV(), %s)",
     dict(edmonds_karp=["edmonds_karp"], dinic=["dinic"]), "func", "edmonds_karp", {}, []),
    ("find", "return 0", "find(STRV(), STRV(), %s)",
     dict(kmp=["knuth_morris_pratt|kmp"], knuth_morris_pratt=["knuth_morris_pratt|kmp"], rabin_karp=["rabin_karp"],
          boyer_moore=["boyer_moore"], z_function=["z_function"]), "func", None, {}, []),
    ("Graph", "return 0", "Graph(implementation=%s)",
     dict(adjacency_list=["AdjacencyList"], adjacency_matrix=["AdjacencyMatrix"]), "class", "adjacency_list", {}, []),
    ("Queue", "return 0", "Queue(implementation=%s)",
     dict(array=["ArrayQueue|ArrayDeque"], linked_list=["LinkedListQueue|LinkedListDeque"]), "class", "array", {}, []),
    ("Queue_double_ended", "return 0", "Queue(double_ended=True, implementation=%s)",
     dict(array=["ArrayQueue|ArrayDeque"], linked_list=["LinkedListQueue|LinkedListDeque"]), "class", "array", {}, []),
    ("Stack", "return 0", "Stack(implementation=%s)",
     dict(array=["ArrayStack"], linked_list=["LinkedListStack"]), "class", "array", {}, []),
    ("Queue_items", "return 0", "Queue(implementation=%s, items=[USER('elem'), USER('elem')], dtype=int, double_ended=BOOLV())",
     dict(array=["ArrayQueue|ArrayDeque"], linked_list=["LinkedListQueue|LinkedListDeque"]), "class", "array", {}, []),
    ("Stack_items", "return 0", "Stack(implementation=%s, items=[USER('elem'), USER('elem')], dtype=int)",
     dict(array=["ArrayStack"], linked_list=["LinkedListStack"]), "class", "array", {}, []),
    ("Graph_vertices", "return 0", "Graph(AdjacencyListGraphNode(STRV()), AdjacencyListGraphNode(STRV()), implementation=%s)",
     dict(adjacency_list=["AdjacencyList"], adjacency_matrix=["AdjacencyMatrix"]), "class", "adjacency_list", {}, []),
    ("BinaryHeap_items", "return 0", "BinaryHeap(elements=[TreeNode(USER('key'), USER('data'))], heap_property=%s)", dict(min=[], max=[]), "none", "min", {}, []),
    ("PriorityQueue_comp", "return 0", "PriorityQueue(implementation=%s, comp=USER('comp'))",
     dict(linked_list=["LinkedListPriorityQueue"], binary_heap=["BinaryHeapPriorityQueue"],
          binomial_heap=["BinomialHeapPriorityQueue"]), "class", "binary_heap", {}, []),
    ("PriorityQueue", "return 0", "PriorityQueue(implementation=%s)",
     dict(linked_list=["LinkedListPriorityQueue"], binary_heap=["BinaryHeapPriorityQueue"],
          binomial_heap=["BinomialHeapPriorityQueue"]), "class", "binary_heap", {}, []),
    ("RangeQueryStatic", "return OneDimensionalArray(int, [1, 2])", "RangeQueryStatic(s, USER('func'), data_structure=%s)",
     dict(sparse_table=["SparseTable"], array=["StaticArray"]), "class", "sparse_table", {}, []),
    ("RangeQueryDynamic", "return OneDimensionalArray(int, [1, 2])", "RangeQueryDynamic(s, USER('func'), data_structure=%s)",
     dict(segment_tree=["SegmentTree"], array=["DynamicArray"]), "class", "segment_tree", {}, []),
    ("BinaryHeap", "return 0", "BinaryHeap(heap_property=%s)", dict(min=[], max=[]), "none", "min", {}, []),
    ("TernaryHeap", "return 0", "TernaryHeap(heap_property=%s)", dict(min=[], max=[]), "none", "min", {}, []),
    ("DHeap", "return 0", "DHeap(heap_property=%s)", dict(min=[], max=[]), "none", "min", {}, []),
    ("depth_first_search_of_trees", "t = BinarySearchTree(USER('key'), USER('data'))\nt.insert(USER('key'), USER('data'))\nreturn t",
     _T + ".depth_first_search(order=%s)",
     dict(pre_order=["_pre_order"], in_order=["_in_order"], post_order=["_post_order"], out_order=["_out_order"]),
     "func", "in_order", dict(out_order=["_in_order"]), []),
    ("breadth_first_search_of_trees", "t = BinarySearchTree(USER('key'), USER('data'))\nt.insert(USER('key'), USER('data'))\nreturn t",
     _T + ".breadth_first_search(strategy=%s)", dict(queue=[]), "none", "queue", {}, []),
    ("lowest_common_ancestor", "t = BinarySearchTree(USER('key'), USER('data'))\nt.insert(USER('key'), USER('data'))\nreturn t",
     "s.lowest_common_ancestor(USER('key'), USER('key'), %s)", {"1": ["_lca_1"], "2": ["_lca_2"]}, "func", "1", {}, []),
]
ALLOW = dict(johnson=["bellman_ford", "dijkstra"], out_order=["in_order"])
NONE_OK = ("lowest_common_ancestor",)   # one defensive path that no tree reaches
# the comparator a heap keeps for each documented property, by constant propagation
DIRECTION = {"min": (True, False), "max": (False, True)}


def _drop(expr):
    """the call with the option left out"""
    import re
    return re.sub(r",?\s*\w*=?%s", "", expr).replace("(, ", "(")


def opt_clients():
    out = []
    for name, setup, expr, choices, kind, default, allow, foreign in OPTS:
        algs = {}
        num = name == "lowest_common_ancestor"
        for c in choices:
            algs["ok_" + c] = "return " + expr % (c if num else repr(c))
        algs["bad"] = "return " + expr % ("OTHER()" if num else "OTHER(%s)" % ", ".join(repr(c) for c in choices))
        if num:
            algs["bad3"] = "return " + expr % "3"
            algs["bad0"] = "return " + expr % "0"
        if default:
            algs["default"] = "return " + _drop(expr)
        # one client per use: results of one use must not be seen by another
        for k, v in algs.items():
            own = [m for ms in choices.values() for m in ms[-1].split("|")] if kind == "func" and k.startswith("bad") else []
            out.append(dict(name="%s.%s" % (name, k), imports=GIMP + AL + STRI, setup=setup, queries={}, mutators={},
                            algs={"use": v}, own=own))
    for h in ("BinaryHeap", "TernaryHeap", "DHeap"):
        for p in DIRECTION:
            out.append(dict(name="%s.direction_%s" % (h, p), imports="", queries={}, mutators={},
                            setup="return %s(heap_property='%s')" % (h, p),
                            algs={"lt": "return s._comp(1, 2)", "gt": "return s._comp(2, 1)"}))
    return out


def _match(marker, names):
    return any(m in n for m in marker.split("|") for n in names)


def check_options(rep, tier):
    rep.rule("for an option value that is none of the documented ones (any other string), no abstract path returns normally")
    rep.rule("for a documented value: a normal path exists, the implementation reached (function or class) is that value's own and no "
             "implementation of another value of the same option is reached; the result is never None")
    rep.rule("with the option left out, the documented default implementation is reached")
    fs = {f["name"]: f for f in _facts(rep, opt_clients())}
    for h in ("BinaryHeap", "TernaryHeap", "DHeap"):
        for p, want in DIRECTION.items():
            f = fs.get("%s.direction_%s" % (h, p))
            if f is None:
                continue
            for ph, w in zip(("a_lt", "a_gt"), want):
                rep.count("obligations")
                at = f["atoms"][ph]
                if len(at) != 1 or at[0] not in (("c", "True"), ("c", "False")):
                    rep.undecide("%s(%s): direction of the heap's comparator" % (h, p))
                elif at[0][1] != str(w):
                    rep.violate("wrong-choice", h, "%s(heap_property=%r) keeps the order of the opposite property" % (h, p), "")
    for name, setup, expr, choices, kind, default, allow, foreign in OPTS:
        def get(k):
            return fs.get("%s.%s" % (name, k))
        for k in ("bad", "bad3", "bad0"):
            f = get(k)
            if f is None:
                continue
            rep.count("obligations")
            rep.count("refusals")
            if f["atoms"]["a_use"]:
                a = f["atoms"]["a_use"][0]
                rep.violate("unknown-accepted", name, "%s: an undocumented option value is accepted" % name,
                            "a normal path returns %s; reached: %s" % (
                                a[1], ", ".join(sorted(x.split(":")[1] for x in f["phase_funcs"]["a_use"]))[:160]))
        for c in list(choices) + (["default"] if default else []):
            f = get("ok_" + c if c != "default" else "default")
            if f is None:
                continue
            c0 = default if c == "default" else c
            rep.count("obligations")
            rep.count("documented_choices")
            at = f["atoms"]["a_use"]
            if not at:
                rep.violate("choice-refused", name, "%s: no normal path for the documented choice %s" % (name, c), "")
                continue
            if ("c", "None") in at and name not in NONE_OK:
                rep.violate("choice-none", name, "%s(%s) may return None" % (name, c), "the documented result is a value")
            if kind == "none":
                continue
            if kind == "class":
                got = sorted({a[1] for a in at if a[0] == "o"})
                for g in got:
                    own = all(_match(m, [g]) for m in choices[c0])
                    others = [x for x in choices if x != c0 and all(_match(m, [g]) for m in choices[x])]
                    if not own and others:
                        rep.violate("wrong-choice", name, "%s(%s) yields %s" % (name, c, g), "that is the implementation of %s" % others[0])
                    elif not own:
                        rep.undecide("%s(%s): class %s not recognised" % (name, c, g))
                    rep.sample("%s(%s) -> %s" % (name, c, g))
                continue
            names = [x.split(":")[1].rsplit(".", 1)[-1] for x in f["phase_funcs"]["a_use"]]
            names = [n for n in names if n != name]
            own = [n for n in names if all(_match(m, [n]) for m in choices[c0])]
            wrong = []
            for x in choices:
                if x == c0 or choices[x] == choices[c0] or x in ALLOW.get(c0, ()):
                    continue
                last = choices[x][-1]
                for n in names:
                    if _match(last, [n]) and not _match(choices[c0][-1], [n]):
                        wrong.append((x, n))
            for n in names:
                for fm in foreign:
                    if fm in n:
                        wrong.append((fm, n))
            for x, n in wrong:
                rep.violate("wrong-choice", name, "%s(%s) reaches %s" % (name, c, n), "that is the implementation of %s" % x)
            if not own and not wrong:
                rep.undecide("%s(%s): no function named after the choice is reached" % (name, c))
            rep.sample("%s(%s) -> %s" % (name, c, ", ".join(own)))


# ---------------------------------------------------------------- P07 backends
def backend_clients(which):
    al = {}

    bk = ", backend=Backend.%s)" % which if which != "DEFAULT" else ")"

    def a(n, e):
        al[n] = "return " + (e + bk).replace("(, ", "(")
    arr = "OneDimensionalArray(int, [USER('elem')])"
    for c, args in dict(
            OneDimensionalArray="int, 5", DynamicOneDimensionalArray="int, 5", MultiDimensionalArray="int, 2, 3",
            BinaryTree="USER('key')", BinarySearchTree="USER('key'), USER('data')", AVLTree="USER('key')",
            RedBlackTree="USER('key')", Treap="USER('key')", SplayTree="USER('key'), USER('data')",
            MAryTree="USER('key')", OneDimensionalSegmentTree="[(INT(), INT())]", BinaryIndexedTree="[INT()]",
            TreeNode="USER('key'), USER('data')", MAryTreeNode="USER('key'), USER('data')", LinkedListNode="USER('key')",
            BinomialTreeNode="USER('key'), USER('data')", AdjacencyListGraphNode="STRV()", AdjacencyMatrixGraphNode="STRV()",
            GraphEdge="AdjacencyListGraphNode('a'), AdjacencyListGraphNode('b')", Set="USER('key')",
            CartesianTreeNode="USER('key'), USER('prio')", RedBlackTreeNode="USER('key')", SkipNode="USER('key')",
            BinomialTree="BinomialTreeNode(USER('key'), USER('data')), 0").items():
        a(c, "%s(%s" % (c, args))
    for c in ("SinglyLinkedList", "SinglyCircularLinkedList", "DoublyLinkedList", "DoublyCircularLinkedList", "SkipList", "Queue",
              "Stack", "PriorityQueue", "DisjointSetForest", "CartesianTree", "BinaryHeap", "TernaryHeap", "DHeap", "BinomialHeap",
              "Graph", "Trie", "TrieNode"):
        a(c, c + "(")
    for c in ("BinaryTree", "BinarySearchTree", "AVLTree", "RedBlackTree", "Treap", "SplayTree", "CartesianTree"):
        a(c + "__empty", c + "(")
        a(c + "__full", c + "(USER('key'), %sUSER('data'), comp=USER('comp'), is_order_statistic=BOOLV()" % (
            "USER('prio'), " if c == "Cartesian" else ""))
    some = "[USER('elem'), USER('elem')]"
    a("OneDimensionalArray__both", "OneDimensionalArray(int, 2, " + some)
    a("OneDimensionalArray__init", "OneDimensionalArray(int, INT(), init=USER('elem')")
    a("DynamicOneDimensionalArray__list", "DynamicOneDimensionalArray(int, " + some)
    a("DynamicOneDimensionalArray__both", "DynamicOneDimensionalArray(int, 2, " + some)
    a("DynamicOneDimensionalArray__load", "DynamicOneDimensionalArray(int, 0, load_factor=0.5")
    for i in ("array", "linked_list"):
        a("Queue_%s__items" % i, "Queue(implementation='%s', items=%s, dtype=int" % (i, some))
        a("Stack_%s__items" % i, "Stack(implementation='%s', items=%s, dtype=int" % (i, some))
    for i in ("linked_list", "binary_heap", "binomial_heap"):
        a("PriorityQueue_%s__comp" % i, "PriorityQueue(implementation='%s', comp=USER('comp')" % i)
    for i in ("adjacency_list", "adjacency_matrix"):
        a("Graph_%s__vertices" % i, "Graph(AdjacencyListGraphNode(STRV()), AdjacencyListGraphNode(STRV()), implementation='%s'" % i)
    for c in ("BinaryHeap", "TernaryHeap"):
        a(c + "__items", c + "(elements=[TreeNode(USER('key'), USER('data'))], heap_property='max'")
    a("DHeap__items", "DHeap(elements=[TreeNode(USER('key'), USER('data'))], d=3")
    a("BinomialHeap__items", "BinomialHeap(root_list=[BinomialTree(BinomialTreeNode(USER('key'), USER('data')), 0)]")
    a("BinaryTreeTraversal__empty", "BinaryTreeTraversal(BinarySearchTree()")
    if which == "CPP":
        a("BinaryTreeTraversal__cpp", "BinaryTreeTraversal(BinarySearchTree(USER('key'), USER('data'), backend=Backend.CPP)")
    a("OneDimensionalArray_from_list", "OneDimensionalArray(int, [USER('elem')]")
    for i in ("array", "linked_list"):
        a("Queue_" + i, "Queue(implementation='%s'" % i)
        a("Deque_" + i, "Queue(implementation='%s', double_ended=True" % i)
        a("Stack_" + i, "Stack(implementation='%s'" % i)
    for i in ("linked_list", "binary_heap", "binomial_heap"):
        a("PriorityQueue_" + i, "PriorityQueue(implementation='%s'" % i)
    for i in ("adjacency_list", "adjacency_matrix"):
        a("Graph_" + i, "Graph(implementation='%s'" % i)
    a("BinaryTreeTraversal", "BinaryTreeTraversal(BinarySearchTree(USER('key'), USER('data'))")
    for i in ("sparse_table", "array"):
        a("RangeQueryStatic_" + i, "RangeQueryStatic(OneDimensionalArray(int, [1]), USER('func'), '%s'" % i)
    for i in ("segment_tree", "array"):
        a("RangeQueryDynamic_" + i, "RangeQueryDynamic(OneDimensionalArray(int, [1]), USER('func'), '%s'" % i)
    a("ArraySegmentTree", "ArraySegmentTree(OneDimensionalArray(int, [1]), USER('func')")
    a("SparseTable", "SparseTable(OneDimensionalArray(int, [1]), USER('func')")
    arrays = {}

    def b(n, e):
        arrays[n] = "return " + e + bk
        if n != "longest_common_subsequence":
            arrays[n + "__options"] = "return " + e + ", start=INT(), end=INT(), comp=USER('comp')" + bk
    for n in ("bubble_sort selection_sort insertion_sort quick_sort shell_sort cocktail_shaker_sort brick_sort heapsort radix_sort "
              "bucket_sort counting_sort intro_sort is_ordered next_permutation prev_permutation "
              "longest_increasing_subsequence").split():
        b(n, "%s(s" % n)
    for n in "merge_sort_parallel brick_sort_parallel upper_bound lower_bound linear_search binary_search jump_search".split():
        b(n, "%s(s, INT()" % n)
    b("longest_common_subsequence", "longest_common_subsequence(s, s")
    strs = {}
    for n in ("kmp", "rabin_karp", "boyer_moore", "z_function"):
        strs["find_" + n] = "return find(STRV(), STRV(), '%s'" % n + bk
    gr = {}
    for k, v in clients.GALG.items():
        if k != "find_bridges":
            gr[k] = v[:-1] + bk
    imp = GIMP + AL + STRI
    mk = ("if BOOLV():\n    return OneDimensionalArray(int, INT())\nif BOOLV():\n    return DynamicOneDimensionalArray(int, 0)\n"
          "a = OneDimensionalArray(int, [USER('elem'), USER('elem')])\nreturn a")
    return [dict(name="%s %s" % (which, n), imports=imp, setup=s, queries={}, mutators={}, algs=x)
            for n, s, x in (("structures", "return 0", al), ("array algorithms", mk, arrays), ("string algorithms", "return 0", strs),
                            ("graph algorithms", GSET, gr))]


PYTHON_ONLY_NAME = dict(Stack="ArrayStack", Stack_array="ArrayStack", Graph="AdjacencyListGraph",
                        Graph_adjacency_list="AdjacencyListGraph", Graph_adjacency_matrix="AdjacencyMatrixGraph",
                        OneDimensionalArray_from_list="OneDimensionalArray")


def check_backend(rep, tier):
    rep.rule("with backend=Backend.CPP every abstract path ends in a refusal or returns the object/result of the C++ counterpart of the "
             "same name; never a Python object, a constant or None, and no object of the caller is written before a refusal")
    rep.rule("with backend=Backend.PYTHON or none given no C++ object is ever returned or called")
    cpp = backend_clients("CPP")
    algs = {c["name"]: c["algs"] for c in cpp}
    for f in _facts(rep, cpp):
        for q in f["phases"]:
            op = opname(q)
            rep.count("obligations")
            rep.count("callables_cpp")
            for a in f["atoms"][q]:
                ext = a[0] == "u" and a[1].startswith("ext:") and "._backend." in a[1]
                if not ext:
                    rep.violate("backend-ignored", op, "%s with the C++ backend may return %s %s" % (op, a[0], a[1]),
                                "not produced by the C++ extension")
                    continue
                last = a[1].rsplit(".", 1)[1]
                op = op.split("__")[0]
                want = PYTHON_ONLY_NAME.get(op, op)
                same = last == want or (f["name"].endswith("graph algorithms") and _graph_own(op, last))
                if not same:
                    rep.violate("backend-wrong", op, "%s with the C++ backend yields %s" % (op, last), "expected the counterpart of %s" % want)
                else:
                    gave = set(re.findall(r"USER\('(\w+)'\)", algs[f["name"]][q[2:]])) if q[2:] in algs[f["name"]] and not q.endswith("__cpp") else set()
                    got = {x[2] for x in f["ext_args"] if x[0] == q and a[1] == "ext:" + x[1]}
                    rep.count("obligations")
                    if gave - got:
                        rep.violate("backend-args", op, "%s with the C++ backend does not hand over the %s it was given" % (
                            q[2:], ", ".join(sorted(gave - got))), "the request is not for the same object or result")
                rep.sample("%s -> %s" % (op, a[1][4:]))
            for w in f["writes"]:
                if w["phase"] == q and w["pre"] and w["obj"]["kind"] != "user":
                    rep.violate("backend-write", "%s:%d" % (w["path"], w["line"]),
                                "%s with the C++ backend writes %s.%s in %s" % (op, w["obj"]["name"], w["field"], w["func"]), "")
    for f in _facts(rep, backend_clients("PYTHON")) + _facts(rep, backend_clients("DEFAULT")):
        for q in f["phases"]:
            op = opname(q)
            rep.count("obligations")
            rep.count("callables_python")
            if not f["atoms"][q] and not f["rets"][q]["objs"]:
                rep.undecide("%s: no normal path with the Python backend" % op)
            for a in f["atoms"][q]:
                if a[0] in ("u", "ext") and "_backend." in a[1]:
                    rep.violate("python-uses-cpp", op, "%s with the Python (or default) backend may return %s" % (op, a[1]), "")


def _graph_own(op, last):
    own = {"bfs": "bfs", "dfs": "dfs", "bellman_ford": "bellman_ford", "dijkstra": "dijkstra", "mst_prim": "prim",
           "mst_kruskal": "kruskal", "scc_kosaraju": "kosaraju", "scc_tarjan": "tarjan"}
    m = own.get(op, op)
    return m in last or (m == "bfs" and "breadth_first" in last)


# ---------------------------------------------------------------- P09 determinism
PURE_EXT = ("collections.", "math.", "copy.", "concurrent.futures.ThreadPoolExecutor", "itertools.", "functools.", "operator.",
            "bisect.", "heapq.", "abc.", "typing.", "enum.")
RANDOM_OK = {"Treap": ("random.random", "random.Random", "random.uniform", "random.randint", "random.randrange", "random.getrandbits"),
             "SkipList": ("random.random", "random.getrandbits", "random.randint", "random.choice", "random.randrange", "random.uniform")}


def check_determinism(rep, tier):
    rep.rule("every call that leaves the library goes to a side-effect free, deterministic standard function; random numbers are drawn only "
             "by treaps and skip lists")
    rep.rule("no id()/hash()/time/environment/file/console access, no order taken from a set, no result that depends on completion order of jobs, "
             "no string built from an object's address")
    P = Program()
    scs = clients.SCN + clients.ALG + clients.SORTSC + clients.COMPALG
    for f in _facts(rep, scs):
        for e in f["ext_calls"]:
            ph, name, path, func, line = e
            rep.count("obligations")
            rep.count("calls_leaving_the_library")
            if name.startswith(PURE_EXT):
                continue
            if "._backend." in name:
                rep.violate("cpp-without-request", "%s:%d" % (path, line), "%s called in %s by %s" % (name, func, f["name"]),
                            "the Python backend calls into the C++ extension")
                continue
            if name.startswith("random."):
                owner = func.split(".")[0]
                if name in RANDOM_OK.get(owner, ()) or any(
                        name in RANDOM_OK[k] for k in RANDOM_OK if _owned(P, owner, k)):
                    continue
                if any(name in v for k, v in RANDOM_OK.items() if k in f["name"]):
                    continue
            rep.violate("nondeterminism", "%s:%d" % (path, line), "%s in %s" % (name, func),
                        "reached by %s.%s" % (f["name"], opname(ph) if ph[1:2] == "_" else ph))
        rep.count("obligations", len(f["phases"]))
        rep.sample("%s: %d calls leaving the library, all deterministic" % (f["name"], len(f["ext_calls"])))


def _owned(P, owner, k):
    cs = P.classes_by_name.get(owner)
    return bool(cs) and any(c.name == k for c in P.mro(cs[0]))
