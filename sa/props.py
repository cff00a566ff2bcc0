"""Registry: property id -> check function."""
from . import effects, contracts

CHECKS = {}


def reg(pid, fn, explanation, assumptions=()):
    CHECKS[pid] = dict(fn=fn, explanation=explanation, assumptions=list(assumptions), level="other")


PTA_ASSUME = [
    "user supplied callables (comparators, aggregation functions, visit operations) do not reach into the structure",
    "attributes of user keys/data are not structure state",
    "default (Python) backend",
]
PTA = ("whole-program flow-sensitive effect analysis: most-general client programs for every structure are "
       "abstractly interpreted (allocation-site heap with call strings, constant propagation, joint fixpoint over all "
       "operations); every write recorded with the abstract object, field, source line and operation. ")

reg("P01", effects.check_queries, PTA + "Obligation: one per (structure, read-only operation, reachable write).", PTA_ASSUME)
reg("P02", effects.check_inputs, PTA + "Obligation: one per (algorithm or constructor, reachable write).", PTA_ASSUME)
reg("P03", effects.check_rejections, PTA + "Obligation: one per (operation, reachable rejecting raise): the set of "
    "writes that may precede it on some path.", PTA_ASSUME)
reg("P04", effects.check_isolation, PTA + "Obligation: one per (operation, write or returned container).", PTA_ASSUME)

reg("P05", effects.check_comparator, PTA + "Obligation: one per (operation, ordering comparison or comparator call, abstract operands).", PTA_ASSUME)

reg("P06", contracts.check_options, PTA + "Obligation: one per (API, option value class): every documented value, the complement of "
    "the documented values as one abstract string, and the omitted option.", PTA_ASSUME)
reg("P07", contracts.check_backend, PTA + "Obligation: one per public callable and requested backend.", PTA_ASSUME[:1])
reg("P09", contracts.check_determinism, PTA + "Obligation: one per call that leaves the library or takes an order from an unordered container.", PTA_ASSUME)

SHAPE = ("shape analysis by abstract interpretation: nodes reached by variables or written are represented exactly, all others are "
         "summarised by the invariant and materialised on demand; positions and sizes are linear terms over a zone domain; loops are "
         "solved by a fixpoint over canonical states. ")
SHAPE_ASSUME = ["structures start well formed (what the operations themselves establish)", "default (Python) backend",
                "positions passed to insert_after / insert_before are nodes of the list"]


def _lists(rep, tier):
    from . import sh_lists
    sh_lists.check_lists(rep, tier)


reg("P10", _lists, SHAPE + "Obligation: one per (list class, operation, class of arguments), over every length and index.", SHAPE_ASSUME)


def _arrays(rep, tier):
    from . import sh_arrays
    sh_arrays.check_arrays(rep, tier)


reg("P12", _arrays, SHAPE + "Obligation: one per (class, operation, class of arguments), over every size, position, filling of the cells and every point "
    "at which the array may be contracted.", SHAPE_ASSUME[:2] + ["elements are not None", "converting an element of a given list to the type of the array keeps it"])


def _trees(rep, tier):
    from . import sh_trees
    sh_trees.check_trees(rep, tier)


reg("P11", _trees, SHAPE + "Obligation: one per (tree class, operation, empty or not, sizes kept or not), over every tree, key, comparator outcome and "
    "every point at which the array behind the tree may be rearranged.", SHAPE_ASSUME[:2] + [
        "the comparator is a strict order and keys that are equal compare equal", "the array behind the tree behaves as documented: its append and delete either keep "
        "all indices or rearrange all of them and return the new index of every key"])


def _graphs(rep, tier):
    from . import sh_graphs
    sh_graphs.check_graphs(rep, tier)


reg("P13", _graphs, SHAPE + "Obligation: one per (graph class, operation, class of arguments), over every graph, with two generic vertices besides the ones given.",
    SHAPE_ASSUME[:2] + ["names of vertices are no attributes the graph or its vertices have otherwise, and the key made of two names is made of no other two",
                        "the neighbours of a vertex that is added are vertices of the graph"])


def _tries(rep, tier):
    from . import sh_tries
    sh_tries.check_tries(rep, tier)


reg("P14", _tries, SHAPE + "Obligation: one per (operation, pattern of equal and different characters in the string given, which has 0 to 3), over every trie and all characters.",
    SHAPE_ASSUME[:2] + ["a trie is changed only through its methods; a character is a string of length one"])


def _sets(rep, tier):
    from . import sh_sets
    sh_sets.check_sets(rep, tier)


reg("P15", _sets, SHAPE + "Obligation: one per (class, operation, keys given), over every forest of up to four keys, with any others below them, and every multiset.",
    SHAPE_ASSUME[:2] + ["forests and multisets are changed only through their methods; the tree behind a multiset behaves as a set (P11)"])


def _sched(rep, tier):
    from . import sched
    sched.check_schedules(rep, tier)


reg("P08", _sched, PTA + "States carry the jobs that may still be running. Obligation: one per (job site, outcome asked for / ended before return) and per pair "
    "(job, job or code) that may overlap: the locations one of them writes.", PTA_ASSUME[:1] + ["thread pools behave as documented (leaving the with block waits for all jobs)"])
