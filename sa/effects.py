"""Checks P01-P04: effects of operations on pre-existing objects (engine 1)."""
from . import clients, facts
from .program import AnalysisBroken

IGN_KIND = ("user", "module", "class")

# Documented amortised representations: (structure, object, field)
ALLOWED_QUERY_WRITES = {
    ("DisjointSetForest", "Set", "parent"),                     # path compression
    ("OneDimensionalSegmentTree", "OneDimensionalSegmentTree", "tree"),      # built on first use
    ("OneDimensionalSegmentTree", "OneDimensionalSegmentTree", "root_idx"),
    ("OneDimensionalSegmentTree", "OneDimensionalSegmentTree", "cache"),
}
# interval tree: nodes and node list built by build()
BUILD_OWNED = {"OneDimensionalSegmentTree": ("OneDimensionalSegmentTree.build",)}


def _facts(rep, scs):
    fs = facts.run_all(scs)
    out = []
    bad = []
    for f in fs:
        if "error" in f:
            bad.append("%s: %s" % (f["name"], f["error"]))
            rep.undecide("scenario %s not analysable: %s" % (f["name"], f["error"]))
            continue
        out.append(f)
        rep.count("client_programs")
        rep.count("abstract_objects", f["nobj"])
        for k in f["unsupported"]:
            rep.undecide("%s: unsupported construct %s" % (f["name"], k))
    if bad and len(bad) * 3 > len(fs):
        raise AnalysisBroken("; ".join(bad)[:400])
    fn = set()
    for f in out:
        fn |= set(f["funcs"])
    rep.counts["functions_analysed"] = len(fn)
    return out


def opname(ph):
    return ph[2:]


def check_queries(rep, tier):
    rep.rule("no read-only operation contains, on any abstract path, a write to an object that existed before it "
             "(except union-find path compression and the lazily built interval tree)")
    for f in _facts(rep, clients.SCN):
        dead = [q for q in f["phases"] if q.startswith("q_") and f["rets"][q]["empty"]]
        for q in dead:
            rep.undecide("%s.%s: no normal path" % (f["name"], q))
        rep.count("queries", len([q for q in f["phases"] if q.startswith("q_")]))
        for w in f["writes"]:
            if not w["phase"].startswith("q_") or w["obj"]["kind"] == "user":
                continue
            rep.count("obligations")
            if not w["pre"]:
                continue
            o = w["obj"]
            if (f["name"], o["name"], w["field"]) in ALLOWED_QUERY_WRITES:
                continue
            own = BUILD_OWNED.get(f["name"], ())
            if own and facts.runs_only_under(f, w["phase"], w["func"], own) and (
                    o["cls"] == "TreeNode" or "tree" in w["held"] or facts.runs_only_under(f, w["phase"], o["func"], own)):
                continue
            rep.violate("query-writes", "%s:%d" % (w["path"], w["line"]),
                        "%s.%s writes %s.%s in %s" % (f["name"], opname(w["phase"]), o["name"], w["field"], w["func"]),
                        "the operation only reads, but %s of a pre-existing %s is written (%s)" % (w["field"], o["name"], w["how"]))
        for q in f["phases"]:
            if q.startswith("q_"):
                rep.count("obligations")
        rep.sample("%s: %d queries over %d objects, %d writes seen" % (
            f["name"], len([q for q in f["phases"] if q[0] == "q"]), f["nobj"], len(f["writes"])))


ADOPTING = ("nodes_to_heap", "trees_to_binomial_heap", "array_to_BinaryHeap", "array_to_TernaryHeap", "array_to_DHeap")


def check_inputs(rep, tier):
    rep.rule("no algorithm, and no constructor, writes to an object reachable from its arguments")
    for f in _facts(rep, clients.ALG):
        for w in f["writes"]:
            if not w["phase"].startswith("a_") or w["obj"]["kind"] == "user":
                continue
            rep.count("obligations")
            if not w["pre"]:
                continue
            o = w["obj"]
            if f["name"] in ADOPTING and not w["arg"]:
                continue        # node objects handed to a structure become its parts
            rep.violate("input-modified", "%s:%d" % (w["path"], w["line"]),
                        "%s writes %s.%s in %s" % (opname(w["phase"]), o["name"], w["field"], w["func"]),
                        "an object of the caller (%s) is modified (%s)" % (o["name"], w["how"]))
        for q in f["phases"]:
            rep.count("obligations")
            rep.count("algorithms")
            if f["rets"][q]["empty"]:
                rep.undecide("%s.%s: no normal path" % (f["name"], q))
        rep.sample("%s: %s" % (f["name"], ", ".join(f["phases"])))


def _rejecting(f, r):
    """raise statements that reject the operation being analysed: in a method of
    that name, in a private helper or in a module level function"""
    func = r["func"]
    op = opname(r["phase"])
    base = op.split("__")[0]
    cls, _, meth = func.rpartition(".")
    meth = meth.split(".<locals>")[0]
    if not cls:
        return True
    owner = cls.split(".")[0]
    names = {base, "__%s__" % base}
    if owner in f["mro"]:
        others = {"%s.%s" % (c, opname(p)) for c in f["mro"] for p in f["phases"]} - {"%s.%s" % (c, n) for c in f["mro"] for n in names}
        if func not in others and facts.runs_only_under(f, r["phase"], func, others):
            return False
        if meth in names or (meth.startswith("_") and not meth.startswith("__")):
            return True
        if meth not in {opname(p) for p in f["phases"]} and not meth.startswith("__"):
            return True
        return meth in ("__getitem__", "__setitem__") and base in ("getitem", "setitem")
    return False


# structures whose operations reject through the operations they delegate to
DELEGATING = ("queue_", "stack_", "priority_queue_", "DisjointSetForest", "SinglyLinkedList", "DoublyLinkedList", "SinglyCircular",
              "DoublyCircular")
SIGNALLING = ("SinglyLinkedList", "DoublyLinkedList", "LinkedList", "SinglyCircularLinkedList", "DoublyCircularLinkedList", "DHeap",
              "BinomialHeap", "DisjointSetForest", "Queue", "ArrayQueue", "LinkedListQueue", "ArrayStack", "LinkedListStack", "Stack",
              "LinkedListPriorityQueue")


def _delegated(f, r):
    if not f["name"].startswith(DELEGATING):
        return False
    cls, _, meth = r["func"].split(".<locals>")[0].rpartition(".")
    return cls in SIGNALLING and meth not in ("__new__", "__init__")


def check_rejections(rep, tier):
    rep.rule("on every abstract path to a raise statement that rejects an operation, no object of the structure has been written")
    for f in _facts(rep, clients.SCN):
        for r in f["raises"]:
            if not _rejecting(f, r) and not _delegated(f, r):
                continue
            rep.count("obligations")
            rep.sample("%s.%s: %s raised at %s:%d after %d writes to existing objects" % (
                f["name"], opname(r["phase"]), r["exc"], r["path"], r["line"], len(r["W"])))
            for i in r["W"]:
                w = f["writes"][i]
                if w["obj"]["kind"] == "user":
                    continue
                if (f["name"], w["obj"]["name"], w["field"]) in ALLOWED_QUERY_WRITES and facts.runs_only_under(
                        f, w["phase"], w["func"], ("%s.find_root" % f["name"],)):
                    continue
                rep.violate("write-before-reject", "%s:%d" % (w["path"], w["line"]),
                            "%s.%s: %s.%s written in %s before %s in %s" % (
                                f["name"], opname(r["phase"]), w["obj"]["name"], w["field"], w["func"], r["exc"], r["func"]),
                            "raise at %s:%d leaves the structure modified" % (r["path"], r["line"]))


def check_isolation(rep, tier):
    rep.rule("no operation writes to a module-level, class-level or default-argument object; no operation returns a "
             "list/dict/set that the structure itself keeps")
    for f in _facts(rep, clients.SCN + clients.ALG):
        for w in f["writes"]:
            if w["phase"] == "global":
                continue
            o = w["obj"]
            rep.count("obligations")
            if o["phase"] == "global" and o["kind"] != "user":
                rep.violate("shared-write", "%s:%d" % (w["path"], w["line"]),
                            "%s: %s.%s written in %s" % (f["name"], o["name"], w["field"], w["func"]),
                            "object created once at %s:%s is shared by all instances" % (o["path"], o["line"]))
        for q in f["phases"]:
            for o in f["rets"][q]["objs"]:
                rep.count("obligations")
                if o["kind"] in ("list", "dict", "set", "deque") and (o["phase"] != q or o["kept"]):
                    rep.violate("internal-returned", "%s:%d" % (o["path"], o["line"]),
                                "%s.%s returns internal %s created in %s" % (f["name"], opname(q), o["kind"], o["func"]),
                                "the caller receives a container the structure still uses")
                for fld in o["common"]:
                    rep.violate("instances-share", "%s.%s" % (f["name"], fld),
                                "%s.%s leaves two instances of %s holding the same %s" % (f["name"], opname(q), o["name"], fld),
                                "an operation on one changes the other")


# scenarios whose structure offers no comparator, or orders priorities natively
# by documentation
NO_COMP = {"priority_queue_binomial_heap": "documented: does not support custom comparators"}
MUST_COMP = {
    "BinarySearchTree": ["m_insert", "m_delete", "q_search", "q_lower_bound", "q_upper_bound"],
    "priority_queue_linked_list": ["m_pop", "q_peek"],
    "priority_queue_binary_heap": ["m_push", "m_pop"],
}
for _t in ("AVLTree", "RedBlackTree", "Treap", "CartesianTree", "SplayTree"):
    MUST_COMP[_t] = ["m_insert", "m_delete", "q_search", "q_lower_bound", "q_upper_bound"]
MUST_COMP["SplayTree"] = ["m_insert", "m_delete", "m_split", "m_join", "q_search"]


EQFREE = ("priority_queue", "sorts_", "comp_is_ordered")


def check_comparator(rep, tier):
    rep.rule("when the caller supplies a comparator, two caller supplied keys are never ordered by a built-in comparison")
    rep.rule("every operation that depends on the order consults the supplied comparator")
    rep.rule("the comparator receives keys (never the data stored with them) and exactly two arguments")
    scs = [s for s in clients.SCN if "USER('comp')" in s["setup"]] + clients.SORTSC + clients.COMPALG
    rep.rule("priority queues and sorts never let equality of two keys stand in for the comparator")
    for f in _facts(rep, scs):
        if f["name"] in NO_COMP:
            continue
        isalg = f["phases"][0].startswith("a_")
        tainted = set(f["compfields"])
        for c in f["compares"]:
            if c["op"] == "==" and not f["name"].startswith(EQFREE):
                continue        # searches and trees may recognise the key itself
            rep.count("obligations")
            rep.count("ordering_comparisons")
            lu = [x for x in c["left"] if x.startswith("u:") and x != "u:prio"]
            ru = [x for x in c["right"] if x.startswith("u:") and x != "u:prio"]
            if not (lu and ru) and not any(x.startswith("u:-") for x in lu + ru):
                continue
            if c["func"] in tainted:
                # default comparator replaced by the caller's in the same field
                continue
            rep.violate("builtin-order", "%s:%d" % (c["path"], c["line"]),
                        "%s.%s orders %s %s %s in %s" % (f["name"], opname(c["phase"]), (lu or ["  0"])[0][2:], c["op"], (ru or ["  0"])[0][2:], c["func"]),
                        "keys are ordered without consulting the supplied comparator")
        calls = [c for c in f["user_calls"] if c["label"].startswith("comp")]
        for c in calls:
            rep.count("obligations")
            rep.count("comparator_calls")
            if len(c["args"]) != 2:
                rep.violate("comparator-arity", "%s:%d" % (c["path"], c["line"]),
                            "%s.%s calls the comparator with %d arguments in %s" % (f["name"], opname(c["phase"]), len(c["args"]), c["func"]), "")
            for a in c["args"]:
                if any(x.startswith(("u:~", "u:-")) for x in a):
                    rep.violate("comparator-derived", "%s:%d" % (c["path"], c["line"]),
                                "%s.%s passes something computed from a key to the comparator in %s" % (f["name"], opname(c["phase"]), c["func"]),
                                "the comparator must see the keys themselves")
                if "u:data" in a:
                    rep.violate("comparator-data", "%s:%d" % (c["path"], c["line"]),
                                "%s.%s passes stored data to the comparator in %s" % (f["name"], opname(c["phase"]), c["func"]),
                                "ordering must depend on keys only")
        if f["compkept"] is not None:
            rep.count("obligations")
            if not f["compkept"]:
                rep.violate("comparator-dropped", f["name"], "%s does not keep the comparator it was given" % f["name"], "")
        need = f["phases"] if isalg else MUST_COMP.get(f["name"], [])
        for q in need:
            if q not in f["phases"] or f["rets"][q]["empty"]:
                continue
            rep.count("obligations")
            if not any(c["phase"] == q for c in calls):
                rep.violate("comparator-unused", f["name"], "%s.%s never calls the supplied comparator" % (f["name"], opname(q)), "")
        rep.sample("%s: %d comparator call sites, %d built-in ordering comparisons" % (f["name"], len(calls), len(f["compares"])))
