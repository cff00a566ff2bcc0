"""Linked lists: the chain of nodes is an exact sequence (shape analysis).

The list before the operation is an arbitrary well formed chain of N >= 0 nodes, node p at
position p; its head, tail, next and prev fields are functions of the position.  Only nodes a
variable refers to or whose fields were written are represented; their positions are linear
terms.  After the operation the chain is walked from `head` (runs of untouched nodes are taken
in one step) and compared, as a sequence of runs, with what the operation's contract says."""
import ast

from . import zone as Z
from .program import Program, AnalysisBroken
from .shape import Shape, Theory, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE, TOP, is_num, num

N, J = Z.sym("N"), Z.sym("J")


class ListTheory(Theory):
    def __init__(self, cls, double, circular):
        self.cls, self.double, self.circular = cls, double, circular

    # -------- representation of untouched nodes
    def roots(self, st):
        return [i for i, o in st.objs.items() if "@pos" in o.fields and o.mod]

    def pos(self, st, v):
        return st.objs[v[1]].fields["@pos"][1] if v[0] == "o" and "@pos" in st.objs[v[1]].fields else None

    def lookup(self, st, p):
        """-> [(state, node at position p or None)]"""
        I, out = self.I, []
        for t, empty in I.split_le0(st, N):
            if empty:
                out.append((t, NONE))
                continue
            for u, neg in I.split_le0(t, Z.add(p, Z.const(1))):
                if neg:
                    out.extend(self.at(u, Z.sub(N, Z.const(1))) if self.circular else [(u, NONE)])
                    continue
                for w, past in I.split_le0(u, Z.sub(N, p)):
                    if past:
                        out.extend(self.at(w, Z.const(0)) if self.circular else [(w, NONE)])
                    else:
                        out.extend(self.at(w, p))
        return out

    def at(self, st, p):
        I = self.I
        cur, out = [st], []
        reach = I.reach(st)
        for i in sorted(k for k, o in st.objs.items() if "@pos" in o.fields and k in reach):
            nxt = []
            for t in cur:
                for u, g in I.split_sign(t, Z.sub(p, t.objs[i].fields["@pos"][1])):
                    if g == 0:
                        out.append((u, ("o", i)))
                    else:
                        nxt.append(u)
            cur = nxt
        for t in cur:
            out.append((t, t.new("node", self.nodecls, {"@pos": ("num", p)})))
        return out

    def getattr(self, st, b, name, node):
        o = st.objs[b[1]]
        if "@pos" in o.fields:
            if name in o.fields:
                return None
            p = o.fields["@pos"][1]
            if name == "next":
                return self.lookup(st, Z.add(p, Z.const(1)))
            if name == "prev" and self.double:
                return self.lookup(st, Z.sub(p, Z.const(1)))
            if name == "key":
                return [(st, ("ikey", ("num", p)))]
            if name == "data":
                return [(st, ("idata", ("num", p)))]
            return None
        if o.kind == "list0" and name not in o.fields:
            if name == "head":
                return self.lookup(st, Z.const(0))
            if name == "tail":
                return self.lookup(st, Z.sub(N, Z.const(1)))
        return None

    def equal(self, st, a, b, node):
        for x, y in ((a, b), (b, a)):
            if x[0] == "ikey" and y[0] == "key":
                out = []
                p = x[1][1]
                for t, r in self.I.both(st):
                    if r:
                        t.ghost["hit"] = ("num", p)
                        out.append((t, True))
                    elif "seen" in t.ghost:
                        for u, g in self.I.split_sign(t, Z.sub(p, t.ghost["seen"][1])):
                            if g == 0:
                                u.ghost["seen"] = ("num", Z.add(p, Z.const(1)))
                            out.append((u, False))
                    else:
                        out.append((t, False))
                return out
        if {a[0], b[0]} & {"ikey", "idata"}:
            return self.I.both(st)
        return None

    def call(self, st, f, args, kw, node):
        if f == ("usercomp",):
            return self.champion(st, args)
        return None

    def champion(self, st, args):
        """comparator of the linked list priority queue: the ghost champion must not lose to any
        position compared so far"""
        out = []
        a, b = args
        if a[0] != "ikey" or b[0] != "ikey" or "champ" not in st.ghost:
            return [(t, TRUE if r else FALSE) for t, r in self.I.both(st)]
        for t, same in self.I.split_sign(st, Z.sub(b[1][1], st.ghost["champ"][1])):
            for u, at in self.I.split_sign(t, Z.sub(a[1][1], t.ghost["seen"][1])):
                for w, r in self.I.both(u):
                    if same == 0 and at == 0:
                        w.ghost["seen"] = ("num", Z.add(a[1][1], Z.const(1)))
                        if r:
                            w.ghost["champ"] = a[1]
                    out.append((w, TRUE if r else FALSE))
        return out


class Bad(Exception):
    pass


def show(seq):
    out = []
    for s in seq:
        if s[0] == "new":
            out.append("new")
        else:
            out.append("[%s..%s]" % (Z.show(s[1]), Z.show(s[2])))
    return " + ".join(out) or "empty"


class Final:
    """examines one final state"""
    def __init__(self, T, lst):
        self.T, self.I, self.lst = T, T.I, lst

    def field(self, st, v, name):
        r = []
        for t, x in self.I.getattr(st, v, name, None):
            if isinstance(x, Exc):
                raise Bad("%s of a list node is missing" % name)
            r.append((t, x))
        return r

    def walk(self, st):
        """-> [(state, segments, node values)]"""
        T, I = self.T, self.I
        out = []
        work = []
        for t, h in self.field(st, self.lst, "head"):
            t.ghost["@h"] = h
            t.ghost["@c"] = h
            work.append((t, [], 0))
        while work:
            t, segs, n = work.pop()
            cur = t.ghost["@c"]
            if n > 14:
                raise Bad("the chain does not end (%s ...)" % show(segs[:6]))
            if cur == NONE:
                if T.circular and segs:
                    raise Bad("the circular chain is open after %s" % show(segs))
                out.append((t, segs))
                continue
            if n and T.circular and cur == t.ghost["@h"]:
                out.append((t, segs))
                continue
            if cur[0] != "o":
                raise Bad("a link holds something that is no node after %s" % show(segs))
            o = t.objs[cur[1]]
            if "@pos" not in o.fields:
                if o.cls is not T.nodecls:
                    raise Bad("a link holds something that is no node after %s" % show(segs))
                if ("new", cur[1]) in segs:
                    raise Bad("the chain runs in a circle through the new node: %s" % show(segs))
                for u, x in self.field(t, cur, "next"):
                    u.ghost["@c"] = x
                    work.append((u, segs + [("new", cur[1])], n + 1))
                continue
            # an original node: run to the next node whose next field was written
            p = o.fields["@pos"][1]
            for u, q, stop in self.run(t, p):
                seg = ("run", p, q)
                if stop is None:
                    nx = self.T.lookup(u, Z.add(q, Z.const(1)))
                else:
                    nx = self.field(u, ("o", stop), "next")
                for w, x in nx:
                    w.ghost["@c"] = x
                    work.append((w, segs + [seg], n + 1))
        return out

    def run(self, st, p):
        """-> [(state, last position, stopping node id or None)]"""
        I = self.I
        mods = sorted(i for i, o in st.objs.items() if "@pos" in o.fields and "next" in o.fields)
        cur = [(st, None)]
        for i in mods:
            nxt = []
            for t, best in cur:
                q = t.objs[i].fields["@pos"][1]
                for u, before in I.split_le0(t, Z.add(Z.sub(q, p), Z.const(1))):
                    if before:
                        nxt.append((u, best))
                        continue
                    if best is None:
                        nxt.append((u, i))
                        continue
                    for w, less in I.split_le0(u, Z.sub(q, u.objs[best].fields["@pos"][1])):
                        nxt.append((w, i if less else best))
            cur = nxt
        return [(t, t.objs[b].fields["@pos"][1] if b is not None else Z.sub(N, Z.const(1)), b) for t, b in cur]

    def normal(self, st, segs):
        """drops empty runs, merges adjacent ones -> [(state, segs)]"""
        I = self.I
        cur = [(st, [])]
        for s in segs:
            nxt = []
            for t, acc in cur:
                if s[0] != "run":
                    nxt.append((t, acc + [s]))
                    continue
                for u, empty in I.split_le0(t, Z.add(Z.sub(s[2], s[1]), Z.const(1))):
                    if empty:
                        nxt.append((u, acc))
                    elif acc and acc[-1][0] == "run":
                        for w, g in I.split_sign(u, Z.sub(Z.add(acc[-1][2], Z.const(1)), s[1])):
                            if g == 0:
                                nxt.append((w, acc[:-1] + [("run", acc[-1][1], s[2])]))
                            else:
                                nxt.append((w, acc + [s]))
                    else:
                        nxt.append((u, acc + [s]))
            cur = nxt
        return cur

    def feasible_diff(self, st, a, b):
        return any(g != 0 for _, g in self.I.split_sign(st.copy(), Z.sub(a, b)))

    def check(self, st, expected, new, size):
        for t, segs in self.walk(st):
            for u, act in self.normal(t, segs):
                for w, exp in self.normal(u, expected):
                    self.compare(w, act, exp, new)
                    self.links(w, act, size)

    def compare(self, st, act, exp, new):
        ok = len(act) == len(exp)
        if ok:
            for a, e in zip(act, exp):
                if a[0] != e[0]:
                    ok = False
                elif a[0] == "run" and (self.feasible_diff(st, a[1], e[1]) or self.feasible_diff(st, a[2], e[2])):
                    ok = False
        if not ok:
            raise Bad("the chain holds %s instead of %s" % (show(act), show(exp)))
        for a in act:
            if a[0] == "new":
                o = st.objs[a[1]]
                for f, v in new.items():
                    if o.fields.get(f) != v:
                        raise Bad("the new node's %s is not the one given" % f)
        for i, o in st.objs.items():
            if "@pos" in o.fields:
                for f in o.mod:
                    if f in ("key", "data"):
                        raise Bad("the %s of an element already in the list is overwritten (%s)" % (f, o.w.get(f)))

    def value_at(self, st, seg, last):
        """the node at the start / end of a segment"""
        if seg[0] == "new":
            return [(st, ("o", seg[1]))]
        return self.T.lookup(st, seg[2] if last else seg[1])

    def same(self, st, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "o":
            pa, pb = self.T.pos(st, a), self.T.pos(st, b)
            if pa is not None and pb is not None:
                return not self.feasible_diff(st, pa, pb)
            return a[1] == b[1]
        return a == b

    def links(self, st, act, size):
        T, I = self.T, self.I
        if size is not None:
            for t, s in self.field(st.copy(), self.lst, "size"):
                if s[0] != "num" or self.feasible_diff(t, s[1], size):
                    raise Bad("size is %s instead of %s" % (Z.show(s[1]) if s[0] == "num" else s[0], Z.show(size)))
        if not act:
            for f in ("head", "tail"):
                for t, v in self.field(st.copy(), self.lst, f):
                    if v != NONE:
                        raise Bad("%s of the emptied list is not None" % f)
            return
        for t, v in self.field(st.copy(), self.lst, "tail"):
            t.tmp.append(v)
            for u, e in self.value_at(t, act[-1], True):
                if not self.same(u, u.tmp[-1], e):
                    raise Bad("tail is not the last element of %s" % show(act))
        if not T.double:
            return
        for k, seg in enumerate(act):
            before = act[k - 1] if k else (act[-1] if T.circular else None)
            s = st.copy()
            for t, first in self.value_at(s, seg, False):
                t.tmp.append(first)
                for u, pv in self.field(t, first, "prev"):
                    u.tmp.append(pv)
                    for w, e in ([(u, NONE)] if before is None else self.value_at(u, before, True)):
                        if not self.same(w, w.tmp[-1], e):
                            raise Bad("prev of the first node of part %d of %s does not lead back" % (k + 1, show(act)))
            if seg[0] == "run":
                for i, o in list(st.objs.items()):
                    if "@pos" not in o.fields or "prev" not in o.fields:
                        continue
                    s = st.copy()
                    p = o.fields["@pos"][1]
                    for t, le in I.split_le0(s, Z.sub(p, seg[1])):
                        if le:
                            continue
                        for u, inside in I.split_le0(t, Z.sub(p, seg[2])):
                            if not inside:
                                continue
                            for w, e in T.lookup(u, Z.sub(p, Z.const(1))):
                                if not self.same(w, w.objs[i].fields["prev"], e):
                                    raise Bad("prev of the node at %s does not lead back" % Z.show(p))


# ------------------------------------------------------------------ contracts
def run_(a, b):
    return ("run", a, b)


ONE = Z.const(1)
LAST = Z.sub(N, ONE)
NEWF = {"key": ("key", "K"), "data": ("user", "D")}


def index_cases(extra):
    """(name, raw index, constraint list t<=0, accept): every integer index.  `extra`: 1 if the
    position just behind the end is accepted"""
    hi = Z.sub(N, Z.const(1 - extra))           # last accepted position
    out = []
    for nm, raw in (("index >= 0", J), ("index < 0", Z.sub(J, N))):
        sign = [Z.scale(J, -1)] if nm == "index >= 0" else [Z.add(Z.sub(J, N), ONE)]
        if nm == "index >= 0":
            out.append(("0 <= index <= %s" % Z.show(hi), raw, sign + [Z.sub(J, hi)], True))
            out.append(("index > %s" % Z.show(hi), raw, sign + [Z.add(Z.sub(hi, J), ONE)], False))
        else:
            out.append(("-len <= index < 0", raw, sign + [Z.scale(J, -1)], True))
            out.append(("index < -len", raw, sign + [Z.add(J, ONE)], False))
    return out


LISTS = [("SinglyLinkedList", False, False), ("DoublyLinkedList", True, False),
         ("SinglyCircularLinkedList", False, True), ("DoublyCircularLinkedList", True, True)]


class Runner:
    def __init__(self, rep, prog, cname, double, circular):
        self.rep, self.P, self.cname = rep, prog, cname
        self.cls = prog.require_class(cname)
        self.double, self.circular = double, circular
        self.states = self.steps = self.cases = 0
        self.funcs = set()

    def engine(self):
        T = ListTheory(self.cls, self.double, self.circular)
        T.nodecls = self.P.require_class("LinkedListNode")
        I = Shape(self.P, T)
        st = State()
        st.zone.assume_le0(Z.scale(N, -1))
        lst = st.new("list0", self.cls, {"size": ("num", N)})
        st.ghost["list"] = lst
        return T, I, st, lst

    def case(self, op, name, mk, judge, rule="chain", owner=None):
        """mk(T,I,st,lst) -> [(state, result value|Exc)]; judge(final, state, value)"""
        self.cases += 1
        cls = owner or self.cls
        label = "%s.%s" % (cls.name, op)

        def run(unroll):
            T, I, st, lst = self.engine()
            I.unroll = unroll
            try:
                for t, v in mk(T, I, st, lst):
                    self.states += 1
                    judge(Final(T, t.ghost["list"]), t, v)
            finally:
                self.steps += I.steps
                self.funcs |= {f.qual for f in I.visited}
        try:
            run(None)
        except GIVEUP as e:
            self.rep.undecide("%s (%s): %s" % (label, name, e))
        except Bad as e:
            # joins and widening lose relations: what is reported must also arise without them
            try:
                run(7)
            except Bad as e:
                m = self.P.find_method(cls, op) or next(iter(cls.methods.values()))
                self.rep.violate(rule, "%s:%d" % (m.module.path, m.node.lineno), label, "for every list of len elements and %s: %s" % (name, e))
            except GIVEUP as e2:
                self.rep.undecide("%s (%s): %s, not confirmed: %s" % (label, name, e, e2))
            else:
                self.rep.undecide("%s (%s): %s, not confirmed" % (label, name, e))
        else:
            self.rep.count("obligations")

    def callm(self, op, args, cons=()):
        def mk(T, I, st, lst):
            for c in cons:
                if not I.assume(st, c):
                    return []
            return I.callmethod(st, lst, op, [a(T, st) if callable(a) else a for a in args], None)
        return mk


def expect(exp, new, size, result=None, accept=True, errors=("IndexError", "ValueError")):
    def judge(F, st, v):
        if isinstance(v, Exc):
            if accept:
                raise Bad("%s at %s although the arguments are valid" % (v.name, v.where))
            if v.name not in errors:
                raise Bad("fails with %s at %s instead of refusing the argument" % (v.name, v.where))
            return
        if not accept:
            raise Bad("an index outside the list is accepted")
        st.tmp.append(v)
        if result is not None:
            for t, e in result(F, st.copy()):
                if not F.same(t, t.tmp[-1], e):
                    raise Bad("the node returned is not the one asked for")
        F.check(st, exp, new, size)
    return judge


def at(p):
    return lambda F, st: F.T.lookup(st, p)


def node_at(p):
    def mk(T, st):
        return st.new("node", T.nodecls, {"@pos": ("num", p)})
    return mk


def list_ops(R):
    K, D = ("key", "K"), ("user", "D")
    allrun = run_(Z.const(0), LAST)
    ins = [run_(Z.const(0), Z.sub(J, ONE)), ("new", None), run_(J, LAST)]
    rem = [run_(Z.const(0), Z.sub(J, ONE)), run_(Z.add(J, ONE), LAST)]
    up, dn = Z.add(N, ONE), Z.sub(N, ONE)
    ge1 = Z.sub(ONE, N)
    for nm, raw, cons, ok in index_cases(1):
        if nm == "index < -len" or nm.startswith("index >"):
            # an empty list also accepts -1
            R.case("insert_at", nm, R.callm("insert_at", [("num", raw), K, D], cons + [ge1]), expect(ins, NEWF, up, accept=ok))
        else:
            R.case("insert_at", nm, R.callm("insert_at", [("num", raw), K, D], cons), expect(ins, NEWF, up, accept=ok))
    R.case("insert_at", "an empty list and index -1", R.callm("insert_at", [num(-1), K, D], [N]), expect([("new", None)], NEWF, up))
    for nm, raw, cons, ok in index_cases(0):
        R.case("extract", nm, R.callm("extract", [("num", raw)], cons), expect(rem, NEWF, dn, at(J), accept=ok))
        R.case("__getitem__", nm, R.callm("__getitem__", [("num", raw)], cons), expect([allrun], NEWF, N, at(J), accept=ok))
    pos = [Z.scale(J, -1), Z.sub(J, LAST)]
    R.case("insert_after", "a node of the list", R.callm("insert_after", [node_at(J), K, D], pos),
           expect([run_(Z.const(0), J), ("new", None), run_(Z.add(J, ONE), LAST)], NEWF, up))
    if R.double:
        R.case("insert_before", "a node of the list", R.callm("insert_before", [node_at(J), K, D], pos), expect(ins, NEWF, up))
    R.case("append", "no precondition", R.callm("append", [K, D]), expect([allrun, ("new", None)], NEWF, up))
    R.case("appendleft", "no precondition", R.callm("appendleft", [K, D]), expect([("new", None), allrun], NEWF, up))
    R.case("popleft", "len >= 1", R.callm("popleft", [], [ge1]), expect([run_(ONE, LAST)], NEWF, dn, at(Z.const(0))))
    R.case("popright", "len >= 1", R.callm("popright", [], [ge1]), expect([run_(Z.const(0), Z.sub(N, Z.const(2)))], NEWF, dn, at(LAST)))
    for op in ("popleft", "popright"):
        R.case(op, "len = 0", R.callm(op, [], [N]), expect([], NEWF, None, accept=False))

    def search(T, I, st, lst):
        st.ghost["seen"] = num(0)
        st.ghost["hit"] = num(-1)
        return I.callmethod(st, lst, "search", [K], None)

    def found(F, st, v):
        if isinstance(v, Exc):
            raise Bad("%s at %s" % (v.name, v.where))
        if v == NONE:
            if F.feasible_diff(st, st.ghost["seen"][1], N):
                raise Bad("None is returned although only %s of N nodes were compared" % Z.show(st.ghost["seen"][1]))
        elif F.T.pos(st, v) is None or F.feasible_diff(st, F.T.pos(st, v), st.ghost["hit"][1]):
            raise Bad("the node returned is not one whose key was found equal")
        F.check(st, [allrun], NEWF, N)
    R.case("search", "every key", search, found)


def adapters(R, prog):
    """stack, queue and priority queue kept in a linked list"""
    K, D = ("key", "K"), ("user", "D")
    allrun = run_(Z.const(0), LAST)
    up, dn = Z.add(N, ONE), Z.sub(N, ONE)
    ge1 = [Z.sub(ONE, N)]
    front, back = [("new", None), allrun], [allrun, ("new", None)]
    nofirst, nolast = [run_(ONE, LAST)], [run_(Z.const(0), Z.sub(N, Z.const(2)))]
    xonly = {"key": K}

    def wrap(cname, field, more):
        cls = prog.require_class(cname)

        def go(op, args, cons=(), attr=False, ghost=None):
            def mk(T, I, st, lst):
                for c in cons:
                    if not I.assume(st, c):
                        return []
                st.ghost.update(ghost or {})
                w = st.new("inst", cls, dict(more, **{field: lst}))
                st.ghost["w"] = w
                if attr:
                    return I.getattr(st, w, op, None)
                return I.callmethod(st, w, op, args, None)
            return mk

        def judge(j, keep=True):
            def f(F, st, v):
                if keep and st.objs[st.ghost["w"][1]].fields.get(field) != st.ghost["list"]:
                    raise Bad("the list is replaced")
                j(F, st, v)
            return f
        return cls, go, judge

    def number(v0):
        def f(F, st, v):
            if isinstance(v, Exc):
                raise Bad("%s at %s" % (v.name, v.where))
            for t, g in F.I.split_le0(st.copy(), N):
                e = v0(g)
                if e[0] == "num" and (v[0] != "num" or F.feasible_diff(t, v[1], e[1])) or e[0] != "num" and v != e:
                    raise Bad("the answer is wrong for %s list" % ("an empty" if g else "a non-empty"))
            F.check(st, [allrun], {}, N)
        return f
    ln, emp = number(lambda g: ("num", N)), number(lambda g: TRUE if g else FALSE)
    c, go, j = wrap("LinkedListStack", "stack", {})
    R.case("push", "every element", go("push", [K]), j(expect(front, xonly, up)), owner=c)
    R.case("pop", "len >= 1", go("pop", [], ge1), j(expect(nofirst, xonly, dn, at(Z.const(0)))), owner=c)
    R.case("pop", "len = 0", go("pop", [], [N]), j(expect([], xonly, None, accept=False)), owner=c)
    R.case("peek", "len >= 1", go("peek", [], ge1, True), j(expect([allrun], xonly, N, at(Z.const(0)))), owner=c)
    R.case("__len__", "every length", go("__len__", []), j(ln), owner=c)
    R.case("is_empty", "every length", go("is_empty", [], (), True), j(emp), owner=c)
    for dbl in (True, False):
        c, go, j = wrap("LinkedListQueue", "queue", {"_double_ended": ("bool", dbl)})
        nm = ", double ended" if dbl else ", single ended"
        R.case("append", "every element" + nm, go("append", [K]), j(expect(back, xonly, up)), owner=c)
        R.case("popleft", "len >= 1" + nm, go("popleft", [], ge1), j(expect(nofirst, xonly, dn, at(Z.const(0)))), owner=c)
        R.case("popleft", "len = 0" + nm, go("popleft", [], [N]), j(expect([], xonly, None, accept=False)), owner=c)
        if dbl:
            R.case("appendleft", "every element" + nm, go("appendleft", [K]), j(expect(front, xonly, up)), owner=c)
            R.case("pop", "len >= 1" + nm, go("pop", [], ge1), j(expect(nolast, xonly, dn, at(LAST))), owner=c)
            R.case("pop", "len = 0" + nm, go("pop", [], [N]), j(expect([], xonly, None, accept=False)), owner=c)
        else:
            for op, a in (("appendleft", [K]), ("pop", [])):
                R.case(op, "every length" + nm, go(op, a), j(expect([], xonly, None, accept=False, errors=("NotImplementedError",))), owner=c)
        R.case("front", "len >= 1", go("front", [], ge1, True), j(expect([allrun], xonly, N, at(Z.const(0)))), owner=c)
        R.case("rear", "len >= 1", go("rear", [], ge1, True), j(expect([allrun], xonly, N, at(LAST))), owner=c)
        R.case("__len__", "every length", go("__len__", []), j(ln), owner=c)
        R.case("is_empty", "every length", go("is_empty", [], (), True), j(emp), owner=c)

    c, go, j = wrap("LinkedListPriorityQueue", "items", {"comp": ("usercomp",)})
    g0 = {"seen": num(1), "champ": num(0)}     # the first element is the first candidate

    def best(pop):
        def f(F, st, v):
            if isinstance(v, Exc):
                raise Bad("%s at %s although the queue is not empty" % (v.name, v.where))
            champ, seen = st.ghost["champ"][1], st.ghost["seen"][1]
            for t, g in F.I.split_sign(st, Z.sub(N, seen)):
                if g != 0:
                    raise Bad("the element is chosen after comparing only %s of N priorities" % Z.show(seen))
                if pop:
                    if v[0] != "idata" or F.feasible_diff(t, v[1][1], champ):
                        raise Bad("the value returned does not belong to the best priority")
                    F.check(t, [run_(Z.const(0), Z.sub(champ, ONE)), run_(Z.add(champ, ONE), LAST)], xonly, dn)
                else:
                    p = F.T.pos(t, v)
                    if p is None or F.feasible_diff(t, p, champ):
                        raise Bad("the node returned does not have the best priority")
                    F.check(t, [allrun], xonly, N)
        return f
    R.case("push", "every value and priority", go("push", [D, K]), j(expect(back, NEWF, up)), owner=c)
    R.case("pop", "len >= 1", go("pop", [], ge1, False, g0), j(best(True)), owner=c)
    R.case("peek", "len >= 1", go("peek", [], ge1, True, g0), j(best(False)), owner=c)
    R.case("pop", "len = 0", go("pop", [], [N], False, g0), j(expect([], xonly, None, accept=False)), owner=c)
    R.case("is_empty", "every length", go("is_empty", [], (), True), j(emp), owner=c)


def check_lists(rep, tier):
    prog = Program()
    rep.rule("walking a list from head after an operation gives exactly the sequence its contract names, for every length, "
             "position and index; tail, prev links, closing link, size and the node returned agree with it")
    funcs = set()
    for cname, d, c in LISTS:
        R = Runner(rep, prog, cname, d, c)
        list_ops(R)
        if cname == "SinglyLinkedList":
            adapters(R, prog)
        rep.count("final_states", R.states)
        rep.count("cases", R.cases)
        rep.count("abstract_steps", R.steps)
        funcs |= R.funcs
    rep.counts["functions_interpreted"] = len(funcs)
    rep.sample(sorted(funcs))
    return rep
