"""Most-general client programs, analysed (never run) by engine 1.

A scenario is a client module: setup() builds the structure and applies every
mutator; q_* are read-only operations, m_* mutators.  Every driver phase is
interpreted over the whole abstract heap, to a joint fixpoint, so that the
order and number of calls is arbitrary."""

HEAD = "from pydatastructs import *\nfrom pydatastructs.utils import *\n" \
       "from pydatastructs.utils.misc_util import *\n"


def scenario(name, imports, setup, queries, mutators):
    return dict(name=name, imports=imports, setup=setup, queries=queries, mutators=mutators)


def source(sc):
    out = [HEAD + sc["imports"], ""]
    out.append("def setup():")
    for ln in sc["setup"].strip("\n").split("\n"):
        out.append("    " + ln)
    for pre, d in (("q", sc["queries"]), ("m", sc["mutators"])):
        for k, body in d.items():
            out.append("def %s_%s(s):" % (pre, k))
            for ln in body.split(";"):
                out.append("    " + ln.strip())
    return "\n".join(out) + "\n"


SCN = []


def add(*a):
    SCN.append(scenario(*a))


K, D, I = "USER('key')", "USER('data')", "INT()"

# ------------------------------------------------------------- arrays
AR = "from pydatastructs.linear_data_structures.arrays import *\n"
add("one_dimensional_array", AR,
    "return OneDimensionalArray(int, INT())",
    dict(getitem="return s[INT()]", len="return len(s)", str="return str(s)"),
    dict(setitem="s[INT()] = USER('elem')", fill="s.fill(USER('elem'))"))
add("one_dimensional_array_from_list", AR,
    "return OneDimensionalArray(int, [USER('elem'), USER('elem')])",
    dict(getitem="return s[INT()]", len="return len(s)", str="return str(s)"),
    dict(setitem="s[INT()] = USER('elem')", fill="s.fill(USER('elem'))"))
add("multi_dimensional_array", AR,
    "return MultiDimensionalArray(int, INT(), INT(), INT())",
    dict(getitem="return s[(INT(), INT(), INT())]", shape="return s.shape"),
    dict(setitem="s[(INT(), INT(), INT())] = USER('elem')", fill="s.fill(USER('elem'))"))
add("dynamic_array", AR,
    "return DynamicOneDimensionalArray(int, INT())",
    dict(getitem="return s[INT()]", len="return len(s)", str="return str(s)",
         size="return s.size", reversed="return [x for x in reversed(s)]"),
    dict(setitem="s[INT()] = USER('elem')", fill="s.fill(USER('elem'))",
         append="s.append(USER('elem'))", delete="s.delete(INT())"))

# ------------------------------------------------------------- linked lists
LQ = dict(len="return len(s)", is_empty="return s.is_empty", search="return s.search(USER('key'))",
          str="return str(s)", getitem="return s[INT()]", iterate="return [x for x in s]")
LM = dict(appendleft="s.appendleft(USER('key'), USER('data'))",
          append="s.append(USER('key'), USER('data'))",
          insert_after="s.insert_after(s.search(USER('key')), USER('key'), USER('data'))",
          insert_at="s.insert_at(INT(), USER('key'), USER('data'))",
          popleft="return s.popleft()", popright="return s.popright()",
          extract="return s.extract(INT())")
LMD = dict(LM, insert_before="s.insert_before(s.search(USER('key')), USER('key'), USER('data'))")
for _c in ("SinglyLinkedList", "SinglyCircularLinkedList", "DoublyLinkedList", "DoublyCircularLinkedList"):
    add(_c, "", "return %s()" % _c, LQ, LMD if _c.startswith("Doubly") else LM)
add("SkipList", "", "return SkipList()",
    dict(levels="return s.levels", search="return s.search(USER('key'))", size="return s.size", str="return str(s)"),
    dict(insert="s.insert(USER('key'), USER('data'))", extract="return s.extract(USER('key'))"))

# ------------------------------------------------------------- queues, stacks
for _i in ("array", "linked_list"):
    for _de in ("False", "True"):
        add("queue_%s%s" % (_i, "_deque" if _de == "True" else ""), "",
            ("if BOOLV():\n    return Queue(implementation='%s', double_ended=%s, items=[USER('elem'), USER('elem')])\n"
             "return Queue(implementation='%s', double_ended=%s)") % (_i, _de, _i, _de),
            dict(is_empty="return s.is_empty", front="return s.front", rear="return s.rear",
                 len="return len(s)", str="return str(s)"),
            dict(append="s.append(USER('elem'))", popleft="return s.popleft()",
                 appendleft="s.appendleft(USER('elem'))", pop="return s.pop()"))
    add("stack_" + _i, "", ("if BOOLV():\n    return Stack(implementation='%s', items=[USER('elem'), USER('elem')])\n"
                            "return Stack(implementation='%s')") % (_i, _i),
        dict(is_empty="return s.is_empty", peek="return s.peek", len="return len(s)", str="return str(s)"),
        dict(push="s.push(USER('elem'))", pop="return s.pop()"))
for _i in ("linked_list", "binary_heap", "binomial_heap"):
    add("priority_queue_" + _i, "", "return PriorityQueue(implementation='%s', comp=USER('comp'))" % _i,
        dict(is_empty="return s.is_empty", peek="return s.peek"),
        dict(push="s.push(USER('data'), USER('key'))", pop="return s.pop()"))

# ------------------------------------------------------------- misc
add("DisjointSetForest", "", "return DisjointSetForest()",
    dict(find_root="return s.find_root(USER('key'))", find_size="return s.find_size(USER('key'))",
         disjoint_sets="return s.disjoint_sets()"),
    dict(make_set="s.make_set(USER('key'), USER('data'))", union="s.union(USER('key'), USER('key'))",
         make_root="s.make_root(USER('key'))"))
add("Multiset", "", "if BOOLV():\n    return Multiset()\nreturn Multiset(USER('key'), USER('key'))",
    dict(lower_bound="return s.lower_bound(USER('key'))", upper_bound="return s.upper_bound(USER('key'))",
         contains="return USER('key') in s", len="return len(s)", count="return s.count(USER('key'))"),
    dict(add="s.add(USER('key'))", remove="s.remove(USER('key'))"))
_ARR = "arr = OneDimensionalArray(int, [INT(), INT(), INT()])\n"
add("ArraySegmentTree", AR, _ARR + "return ArraySegmentTree(arr, USER('func'))",
    dict(query="return s.query(INT(), INT())", str="return str(s)", is_ready="return s.is_ready"),
    dict(update="s.update(INT(), USER('elem'))", build="s.build()"))
add("SparseTable", AR, _ARR + "return SparseTable(arr, USER('func'))",
    dict(query="return s.query(INT(), INT())", str="return str(s)"), {})
for _i in ("sparse_table", "array"):
    add("RangeQueryStatic_" + _i, AR, _ARR + "return RangeQueryStatic(arr, USER('func'), data_structure='%s')" % _i,
        dict(query="return s.query(INT(), INT())"), {})
for _i in ("segment_tree", "array"):
    add("RangeQueryDynamic_" + _i, AR, _ARR + "return RangeQueryDynamic(arr, USER('func'), data_structure='%s')" % _i,
        dict(query="return s.query(INT(), INT())"), dict(update="s.update(INT(), USER('elem'))"))
add("BinomialTree", "", "if BOOLV():\n    return BinomialTree(order=INT())\nreturn BinomialTree(BinomialTreeNode(USER('key'), USER('data')), 0)",
    dict(is_empty="return s.is_empty"),
    dict(add_sub_tree="s.add_sub_tree(BinomialTree(BinomialTreeNode(USER('key'), USER('data')), 0))"))
add("Trie", "from pydatastructs.strings import *\n", "return Trie()",
    dict(is_present="return s.is_present(STRV())", is_inserted="return s.is_inserted(STRV())",
         strings_with_prefix="return s.strings_with_prefix(STRV())"),
    dict(insert="s.insert(STRV())", delete="return s.delete(STRV())"))

# ------------------------------------------------------------- trees
TQ = dict(search="return s.search(USER('key'))", search_parent="return s.search(USER('key'), parent=True)",
          lower_bound="return s.lower_bound(USER('key'))", upper_bound="return s.upper_bound(USER('key'))",
          select="return s.select(INT())", rank="return s.rank(USER('key'))",
          lca1="return s.lowest_common_ancestor(USER('key'), USER('key'), 1)",
          lca2="return s.lowest_common_ancestor(USER('key'), USER('key'), 2)",
          str="return str(s)",
          dfs_in="return BinaryTreeTraversal(s).depth_first_search('in_order')",
          dfs_pre="return BinaryTreeTraversal(s).depth_first_search('pre_order')",
          dfs_post="return BinaryTreeTraversal(s).depth_first_search('post_order')",
          dfs_out="return BinaryTreeTraversal(s).depth_first_search('out_order')",
          bfs="return BinaryTreeTraversal(s).breadth_first_search()")
TM = dict(insert="s.insert(USER('key'), USER('data'))", delete="return s.delete(USER('key'))",
          delete_b="return s.delete(USER('key'), balancing_info=True)")
for _c in ("BinarySearchTree", "AVLTree", "RedBlackTree", "Treap", "CartesianTree", "SplayTree"):
    q, m = dict(TQ), dict(TM)
    if _c == "CartesianTree":
        m["insert"] = "s.insert(USER('key'), USER('prio'), USER('data'))"
    if _c == "SplayTree":
        m = dict(insert="s.insert(USER('key'), USER('data'))", delete="return s.delete(USER('key'))",
                 split="return s.split(USER('key'))",
                 join="t = SplayTree(USER('key'), USER('data'), comp=USER('comp')); s.join(t); return t",
                 splay="s.splay(INT(), INT())")
    rb = "" if _c not in ("CartesianTree", "Treap") else ""
    add(_c, "", ("if BOOLV():\n    return %(c)s(comp=USER('comp'), is_order_statistic=True)\n"
                 "if BOOLV():\n    return %(c)s(USER('key'), %(p)sUSER('data'), comp=USER('comp'), is_order_statistic=BOOLV())\n"
                 "return %(c)s(comp=USER('comp'))") % dict(c=_c, p=""), q, m)
add("BinaryIndexedTree", AR, "return BinaryIndexedTree([INT(), INT(), INT()])",
    dict(get_prefix_sum="return s.get_prefix_sum(INT())", get_sum="return s.get_sum(INT(), INT())"),
    dict(update="s.update(INT(), INT())"))
for _c in ("BinaryHeap", "TernaryHeap", "DHeap"):
    for _p in ("min", "max"):
        _el = "elements=[TreeNode(USER('key'), USER('data')), TreeNode(USER('key'), USER('data'))], "
        add("%s_%s" % (_c, _p), "", ("if BOOLV():\n    return %s(%sheap_property='%s')\nreturn %s(heap_property='%s')") % (_c, _el, _p, _c, _p),
            dict(is_empty="return s.is_empty", str="return str(s)"),
            dict(insert="s.insert(USER('key'), USER('data'))", extract="return s.extract()"))
add("BinomialHeap", "", "if BOOLV():\n    return BinomialHeap(root_list=[BinomialTree(BinomialTreeNode(USER('key'), USER('data')), 0)])\n"
    "return BinomialHeap()",
    dict(find_minimum="return s.find_minimum()", find_minimum_i="return s.find_minimum(get_index=True)",
         is_empty="return s.is_empty"),
    dict(insert="s.insert(USER('key'), USER('data'))", delete_minimum="return s.delete_minimum()",
         merge="t = BinomialHeap(); t.insert(USER('key'), USER('data')); s.merge(t); return t",
         decrease_key="s.decrease_key(s.find_minimum(), USER('key'))",
         delete="s.delete(s.find_minimum())"))
add("MAryTree", "from pydatastructs.trees.m_ary_trees import *\n",
    "return MAryTree(USER('key'), USER('data'), comp=USER('comp'), max_children=INT())",
    dict(str="return str(s)"), {})
add("OneDimensionalSegmentTree", "",
    "return OneDimensionalSegmentTree([(INT(), INT()), (INT(), INT())])",
    dict(query="return s.query(INT())", str="return str(s)"),
    dict(build="s.build()"))

# ------------------------------------------------------------- graphs
for _i in ("adjacency_list", "adjacency_matrix"):
    _nd = "AdjacencyListGraphNode" if _i == "adjacency_list" else "AdjacencyMatrixGraphNode"
    add("graph_" + _i, "from pydatastructs.graphs import *\n",
        "return Graph(%s(STRV(), USER('data')), %s(STRV(), USER('data')), implementation='%s')" % (_nd, _nd, _i),
        dict(is_adjacent="return s.is_adjacent(STRV(), STRV())", num_vertices="return s.num_vertices()",
             num_edges="return s.num_edges()", neighbors="return s.neighbors(STRV())",
             get_edge="return s.get_edge(STRV(), STRV())"),
        dict(add_vertex="s.add_vertex(%s(STRV(), USER('data')))" % _nd, remove_vertex="s.remove_vertex(STRV())",
             add_edge="s.add_edge(STRV(), STRV(), INT())", remove_edge="s.remove_edge(STRV(), STRV())"))


# ------------------------------------------------------------- nodes
add("AdjacencyListGraphNode", "", "return AdjacencyListGraphNode(STRV(), USER('data'))",
    dict(str="return str(s)"),
    dict(add_adjacent_node="s.add_adjacent_node(STRV(), USER('data'))",
         remove_adjacent_node="s.remove_adjacent_node(STRV())"))
add("BinomialTreeNode", "", "return BinomialTreeNode(USER('key'), USER('data'))", dict(str="return str(s)"),
    dict(add_children="s.add_children(BinomialTreeNode(USER('key'), USER('data')))"))
add("MAryTreeNode", "", "return MAryTreeNode(USER('key'), USER('data'))", dict(str="return str(s)"),
    dict(add_children="s.add_children(INT(), INT())"))
add("TrieNode", "", "return TrieNode(STRV())", dict(get_child="return s.get_child(STRV())"),
    dict(add_child="s.add_child(TrieNode(STRV()))", remove_child="s.remove_child(STRV())"))


def by_name(n):
    for s in SCN:
        if s["name"] == n:
            return s
    raise KeyError(n)

# ------------------------------------------------------------- algorithms
# a_* functions receive inputs built (and mutated) by setup; they may not
# modify them.
ALG = []


def alg(name, imports, setup, algs):
    ALG.append(dict(name=name, imports=imports, setup=setup, queries={}, mutators={}, algs=algs))


_AL = AR + "from pydatastructs.linear_data_structures.algorithms import *\n"
_mk = {"oda": "if BOOLV():\n    return OneDimensionalArray(int, INT())\nreturn OneDimensionalArray(int, [USER('elem'), USER('elem')])",
       "list": "return [USER('elem'), USER('elem')]",
       "doda": "a = DynamicOneDimensionalArray(int, [USER('elem'), USER('elem')])\na.append(USER('elem'))\na.delete(INT())\nreturn a"}
for _k, _v in _mk.items():
    alg("array_queries_" + _k, _AL, _v,
        dict(is_ordered="return is_ordered(s, start=INT(), end=INT(), comp=USER('comp'))",
             upper_bound="return upper_bound(s, USER('elem'), comp=USER('comp'))",
             lower_bound="return lower_bound(s, USER('elem'), comp=USER('comp'))",
             linear_search="return linear_search(s, USER('elem'))",
             binary_search="return binary_search(s, USER('elem'), comp=USER('comp'))",
             jump_search="return jump_search(s, USER('elem'), comp=USER('comp'))",
             longest_increasing_subsequence="return longest_increasing_subsequence(s)",
             longest_common_subsequence="return longest_common_subsequence(s, s)",
             next_permutation="return next_permutation(s, comp=USER('comp'))",
             prev_permutation="return prev_permutation(s, comp=USER('comp'))",
             counting_sort="return counting_sort(s)"))
alg("matrices", _AL, "return ([[INT()], [INT()]], [[INT()], [INT()]])",
    dict(matrix_multiply_parallel="return matrix_multiply_parallel(s[0], s[1], INT())"))
alg("lists_to_structures", AR + "from pydatastructs.trees.m_ary_trees import *\n",
    "if BOOLV():\n    return [USER('elem'), None]\nreturn [USER('elem'), USER('elem')]",
    dict(array="a = OneDimensionalArray(int, s); a[INT()] = USER('elem'); a.fill(USER('elem')); return a",
         array2="a = OneDimensionalArray(int, INT(), s); a[INT()] = USER('elem'); a.fill(USER('elem')); return a",
         array3="a = OneDimensionalArray(int, s, INT()); a[INT()] = USER('elem'); a.fill(USER('elem')); return a",
         dynamic="a = DynamicOneDimensionalArray(int, s); a[INT()] = USER('elem'); a.fill(USER('elem')); "
                 "a.append(USER('elem')); a.delete(INT()); return a",
         queue="q = Queue(items=s); q.append(USER('elem')); q.popleft(); return q",
         deque="q = Queue(items=s, double_ended=True); q.appendleft(USER('elem')); q.pop(); return q",
         queue_l="q = Queue(implementation='linked_list', items=s); q.append(USER('elem')); q.popleft(); return q",
         deque_l="q = Queue(implementation='linked_list', items=s, double_ended=True); q.appendleft(USER('elem')); q.pop(); return q",
         stack="q = Stack(items=s); q.push(USER('elem')); q.pop(); return q",
         stack_l="q = Stack(implementation='linked_list', items=s); q.push(USER('elem')); q.pop(); return q",
         bit="b = BinaryIndexedTree(s); b.update(INT(), INT()); return b.get_sum(INT(), INT())"))
alg("nodes_to_heap", AR + "from pydatastructs.trees.heaps import *\n",
    "return [TreeNode(USER('key'), USER('data')), TreeNode(USER('key'), USER('data'))]",
    {_c: "h = %s(elements=s); h.insert(USER('key'), USER('data')); h.extract(); return h" % _c
     for _c in ("BinaryHeap", "TernaryHeap", "DHeap")})
for _c in ("BinaryHeap", "TernaryHeap", "DHeap"):
    alg("array_to_" + _c, AR + "from pydatastructs.trees.heaps import *\n",
        "e = [TreeNode(USER('key'), USER('data')), TreeNode(USER('key'), USER('data'))]\n"
        "if BOOLV():\n    return DynamicOneDimensionalArray(TreeNode, e)\nreturn OneDimensionalArray(TreeNode, e)",
        dict(heap="h = %s(elements=s); h.insert(USER('key'), USER('data')); h.extract(); return h" % _c))
alg("trees_to_binomial_heap", "", "return [BinomialTree(BinomialTreeNode(USER('key'), USER('data')), 0)]",
    dict(binomial_heap="h = BinomialHeap(root_list=s); h.insert(USER('key'), USER('data')); h.delete_minimum(); return h"))
_TO = dict(segment_tree="t = ArraySegmentTree(s, USER('func')); t.build(); t.update(INT(), USER('elem')); return t.query(INT(), INT())",
         sparse_table="return SparseTable(s, USER('func')).query(INT(), INT())",
         rqs="return RangeQueryStatic(s, USER('func')).query(INT(), INT())",
         rqs_a="return RangeQueryStatic(s, USER('func'), data_structure='array').query(INT(), INT())",
         rqd="t = RangeQueryDynamic(s, USER('func')); t.update(INT(), USER('elem')); return t.query(INT(), INT())",
         rqd_a="t = RangeQueryDynamic(s, USER('func'), data_structure='array'); t.update(INT(), USER('elem')); return t.query(INT(), INT())")
alg("array_to_structures", AR, _ARR + "if BOOLV():\n    arr[INT()] = None\nreturn arr", _TO)
alg("list_to_tables", AR, "return [USER('elem'), USER('elem')]", _TO)
alg("segments", "", "return [[INT(), INT()], [INT(), INT()]]",
    dict(interval_tree="t = OneDimensionalSegmentTree(s); t.build(); return t.query(INT())"))
alg("strings", "from pydatastructs.strings import *\n", "return STRV()",
    dict(kmp="return find(s, STRV(), algorithm='kmp')", rabin_karp="return find(s, STRV(), algorithm='rabin_karp')",
         boyer_moore="return find(s, STRV(), algorithm='boyer_moore')",
         z_function="return find(s, STRV(), algorithm='z_function')"))
GIMP = "from pydatastructs.graphs import *\nfrom pydatastructs.graphs.algorithms import *\n"
GSET = """g = Graph(AdjacencyListGraphNode(STRV(), USER('data')), AdjacencyListGraphNode(STRV(), USER('data')), implementation='adjacency_list')
g.add_vertex(AdjacencyListGraphNode(STRV(), USER('data')))
g.add_edge(STRV(), STRV(), INT())
return g"""
GSETM = """g = Graph(AdjacencyMatrixGraphNode(STRV(), USER('data')), AdjacencyMatrixGraphNode(STRV(), USER('data')), implementation='adjacency_matrix')
g.add_edge(STRV(), STRV(), INT())
return g"""
GALG = dict(
    bfs="return breadth_first_search(s, STRV(), USER('operation'), USER('arg'))",
    dfs="return depth_first_search(s, STRV(), USER('operation'), USER('arg'))",
    bfs_parallel="return breadth_first_search_parallel(s, STRV(), INT(), USER('operation'), USER('arg'))",
    mst_kruskal="return minimum_spanning_tree(s, 'kruskal')",
    mst_prim="return minimum_spanning_tree(s, 'prim')",
    mst_parallel_kruskal="return minimum_spanning_tree_parallel(s, 'kruskal', INT())",
    mst_parallel_prim="return minimum_spanning_tree_parallel(s, 'prim', INT())",
    scc_kosaraju="return strongly_connected_components(s, 'kosaraju')",
    scc_tarjan="return strongly_connected_components(s, 'tarjan')",
    bellman_ford="return shortest_paths(s, 'bellman_ford', STRV())",
    dijkstra="return shortest_paths(s, 'dijkstra', STRV(), STRV())",
    floyd_warshall="return all_pair_shortest_paths(s, 'floyd_warshall')",
    johnson="return all_pair_shortest_paths(s, 'johnson')",
    kahn="return topological_sort(s, 'kahn')",
    kahn_parallel="return topological_sort_parallel(s, 'kahn', INT())",
    edmonds_karp="return max_flow(s, STRV(), STRV(), 'edmonds_karp')",
    dinic="return max_flow(s, STRV(), STRV(), 'dinic')",
    find_bridges="return find_bridges(s)")
for _k, _v in GALG.items():
    alg("graph_" + _k, GIMP, GSET, {_k: _v})
for _k in ("bfs", "dfs", "scc_kosaraju", "scc_tarjan", "bellman_ford", "dijkstra", "floyd_warshall"):
    alg("matrix_graph_" + _k, GIMP, GSETM, {_k: GALG[_k]})
# results are used and changed afterwards: they may not share parts with the input
_USE = "m.add_edge(STRV(), STRV(), INT()); m.remove_edge(STRV(), STRV()); m.add_vertex(AdjacencyListGraphNode(STRV())); m.remove_vertex(STRV()); return m"
for _k in ("mst_kruskal", "mst_prim", "mst_parallel_kruskal", "mst_parallel_prim"):
    alg("use_" + _k, GIMP, GSET, {_k: "m = " + GALG[_k][7:] + "; " + _USE})


def alg_source(sc):
    out = [HEAD + sc["imports"], "", "def setup():"]
    for ln in sc["setup"].strip("\n").split("\n"):
        out.append("    " + ln)
    for k, body in sc["algs"].items():
        out.append("def a_%s(s):" % k)
        for ln in body.split(";"):
            out.append("    " + ln.strip())
    return "\n".join(out) + "\n"

# ------------------------------------------------------------- sorts (in place)
SORTS = {}
for _n in ("brick_sort", "cocktail_shaker_sort", "quick_sort", "bubble_sort", "selection_sort", "insertion_sort",
           "shell_sort"):
    SORTS[_n] = "return %s(s, start=INT(), end=INT(), comp=USER('comp'))" % _n
for _n in ("merge_sort_parallel", "brick_sort_parallel"):
    SORTS[_n] = "return %s(s, INT(), start=INT(), end=INT(), comp=USER('comp'))" % _n
SORTSC = []
for _k, _v in _mk.items():
    SORTSC.append(dict(name="sorts_" + _k, imports=_AL, setup=_v, queries={}, mutators={}, algs=SORTS))
SORTSC.append(dict(name="sorts_list", imports=_AL, setup="return [USER('elem'), USER('elem')]", queries={}, mutators={},
                   algs={k: v for k, v in SORTS.items()}))
COMPQ = dict(
    is_ordered="return is_ordered(s, start=INT(), end=INT(), comp=USER('comp'))",
    upper_bound="return upper_bound(s, USER('elem'), start=INT(), end=INT(), comp=USER('comp'))",
    lower_bound="return lower_bound(s, USER('elem'), start=INT(), end=INT(), comp=USER('comp'))",
    binary_search="return binary_search(s, USER('elem'), start=INT(), end=INT(), comp=USER('comp'))",
    jump_search="return jump_search(s, USER('elem'), start=INT(), end=INT(), comp=USER('comp'))",
    next_permutation="return next_permutation(s, start=INT(), end=INT(), comp=USER('comp'))",
    prev_permutation="return prev_permutation(s, start=INT(), end=INT(), comp=USER('comp'))")
COMPALG = [dict(name="comp_" + k, imports=_AL, setup=_mk["oda"], queries={}, mutators={}, algs={k: v}) for k, v in COMPQ.items()]
