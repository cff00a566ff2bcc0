"""P15: forests of disjoint sets, and multisets.

A forest of any shape over up to four keys (any number of others may hang below them): which key is the parent of which is split
when the code looks, without cycles; the sizes of the trees are symbols.  An operation is judged by the roots of the keys and the
sizes of the roots before and after.  A multiset of any contents, seen from the element of the call and another one.
"""
from .program import Program
from .shape import Shape, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE
from .sh_tries import TrieTheory, Bad, ABSENT
from . import zone as Z


class KeyTheory(TrieTheory):
    """a dictionary of named keys"""
    keys = ()

    def __init__(self, prog):
        self.P, self.w = prog, ()

    def possible(self, q):
        return self.keys if q == () else ()

    def items(self, st, v):
        return None

    def truth(self, st, v):
        return self.I.both(st) if v[0] == "name" else super().truth(st, v)

    def equal(self, st, a, b, node):
        if a[0] == b[0] == "name":
            return [(st, a == b)]
        if "name" in (a[0], b[0]):
            return self.I.both(st) if {a[0], b[0]} & {"num", "str", "cat"} else [(st, False)]
        return super().equal(st, a, b, node)

    def order(self, st, op, a, b, node):
        return self.I.both(st) if "name" in (a[0], b[0]) else None

    def getitem(self, st, b, i, node):
        return None if b[0] == "name" else super().getitem(st, b, i, node)

    def getattr(self, st, b, nm, node):
        if nm == "sort" and b[0] == "o" and st.objs[b[1]].items is not None:
            return [(st, ("sortm", b))]
        return super().getattr(st, b, nm, node)

    def ordered(self, st, xs, args, kw, node):
        """sorted: the keys are a < b < c < d, which is no loss of generality where they are alike"""
        def rank(x):
            if x[0] == "name":
                return x[1]
            ys = x[1] if x[0] == "tup" else st.objs[x[1]].items if x[0] == "o" else None
            if ys is None or args or kw:
                raise Undecided("sorted at %s" % self.I.where(st, node))
            return [rank(y) for y in ys]
        rs = [rank(x) for x in xs]
        if any(isinstance(r, str) for r in rs) and not all(isinstance(r, str) for r in rs) or (args or kw) and xs:
            raise Undecided("sorted at %s" % self.I.where(st, node))
        return [x for _, x in sorted(zip(rs, xs), key=lambda p: p[0])]

    def call(self, st, f, args, kw, node):
        if f[0] == "sortm":
            l = st.objs[f[1][1]]
            l.items[:] = self.ordered(st, l.items, args, kw, node)
            return [(st, NONE)]
        if f[0] == "native" and f[1] == "sorted" and args and args[0][0] == "o" and st.objs[args[0][1]].items is not None:
            return [(st, st.new("list", None, None, self.ordered(st, st.objs[args[0][1]].items, args[1:], kw, node)))]
        return super().call(st, f, args, kw, node)


class ForestTheory(KeyTheory):
    def __init__(self, prog, keys):
        super().__init__(prog)
        self.keys = keys
        self.ncls = prog.require_class("Set")

    def kid(self, st, q, c):
        return [(st, q == () and c in self.keys)]

    def node(self, st, q):
        k = q[0]
        for x, v in st.ghost["node"]:
            if x == k:
                return v
        v = st.new("inst", self.ncls, {"key": ("name", k), "data": ("user", "data")})
        st.ghost["node"] += ((k, v),)
        return v

    def parent(self, st, k):
        """the parent of k before the operation -> [(state, key)]"""
        par = dict(st.ghost["par"])
        if k in par:
            return [(st, par[k])]
        opts = []
        for p in self.keys:
            x = p
            while x != k and par.get(x, x) != x:
                x = par[x]
            if x != k or p == k:
                opts.append(p)
        out = []
        for t, p in zip(self.I.alts(st, len(opts)), opts):
            t.ghost["par"] = tuple(sorted(list(t.ghost["par"]) + [(k, p)]))
            out.append((t, p))
        return out

    def missing(self, st, b, nm, node):
        for k, v in st.ghost["node"]:
            if v == b and nm == "parent":
                out = []
                for t, p in self.parent(st, k):
                    w = self.node(t, (p,))
                    t.objs[b[1]].fields[nm] = w
                    out.append((t, w))
                return out
            if v == b and nm == "size":
                st.objs[b[1]].fields[nm] = self.size(st, k)
                return [(st, st.objs[b[1]].fields[nm])]
        return None

    def size(self, st, k):
        s = Z.sym("size_" + k)
        if not st.zone.assume_le0(Z.sub(Z.const(1), s)):
            raise Undecided("size")
        return ("num", s)


class BagTheory(KeyTheory):
    keys = ("a", "b")

    def kid(self, st, q, c):
        return super().kid(st, q, c) if q == () else [(st, False)]

    def node(self, st, q):
        return self.count(st, q[0])

    def count(self, st, k):
        """how often k was there"""
        if self.known(st, "kid", ((), k)) is False:
            return ("num", Z.const(0))
        s = Z.sym("count_" + k)
        st.zone.assume_le0(Z.scale(s, -1))
        return ("num", s)

    def full(self, st, b):
        if st.objs[b[1]].fields["@base"][0] == "kids":
            raise Undecided("all elements of a multiset")
        return super().full(st, b)

    def candidates(self, st, v):
        if st.objs[v[1]].fields["@base"][0] == "kids":
            raise Undecided("all elements of a multiset")
        return super().candidates(st, v)

    def contains(self, st, a, b, node):
        if b == st.ghost.get("self") and self.P.find_method(st.objs[b[1]].cls, "__contains__"):
            return [y for t, v in self.I.callmethod(st, b, "__contains__", [a], node)
                    for y in ([(t, v)] if isinstance(v, Exc) else self.I.truth(t, v, node))]
        return super().contains(st, a, b, node)

    def getattr(self, st, b, nm, node):
        if b[0] == "rbt":
            return [(st, ("rbtm", nm))]
        return super().getattr(st, b, nm, node)

    def truth(self, st, v):
        return [(st, True)] if v[0] == "rbt" else super().truth(st, v)

    def call(self, st, f, args, kw, node):
        if f[0] == "native" and f[1] == "len" and args and args[0][0] == "o" and st.objs[args[0][1]].cls is None and \
                self.asmap(st, args[0]) and st.objs[args[0][1]].fields["@base"][0] == "kids":
            cur = [st]
            for k in self.keys:
                cur = [u for t in cur for u, _ in self.mget(t, args[0], ("name", k))]
            out = []
            for t in cur:
                n = Z.sym(t.fresh("len"))            # these and any others
                t.zone.assume_le0(Z.sub(Z.const(len([x for x in t.objs[args[0][1]].fields["@o"] if x[1] != ABSENT])), n))
                out.append((t, ("num", n)))
            return out
        if f[0] == "cls" and getattr(f[1], "name", "") == "RedBlackTree":
            return [(st, ("rbt",))]
        if f[0] == "rbtm":
            if f[1] in ("insert", "delete") and args and args[0][0] == "name":
                st.ghost["tree"] = tuple(x for x in st.ghost["tree"] if x[0] != args[0][1]) + ((args[0][1], f[1] == "insert"),)
                return [(st, NONE)]
            if f[1] in ("lower_bound", "upper_bound") and len(args) == 1:
                return [(st, ("user", f[1] + str(args[0])))]
            raise Undecided("tree method %s" % f[1])
        return super().call(st, f, args, kw, node)


class Runner:
    def __init__(self, rep, prog):
        self.rep, self.P = rep, prog
        self.states = self.steps = self.cases = 0
        self.funcs = set()

    def case(self, cname, op, nm, T, start, args, judge):
        self.cases += 1
        label = "%s.%s" % (cname, op)
        cls = self.P.require_class(cname)
        try:
            I = Shape(self.P, T)
            I.MAXSTEPS, I.unroll = 400000, 40
            st = State()
            st.ghost.update({"kid": (), "end": (), "node": (), "par": (), "tree": ()})
            start(st, cls, I)
            try:
                if op in ("__new__", "__init__"):
                    res = I.call(st, ("cls", cls), args(st), {}, None)
                else:
                    res = I.callmethod(st, st.ghost["self"], op, args(st), None)
                for t, v in res:
                    self.states += 1
                    if op in ("__new__", "__init__"):
                        fine(v)
                        t.ghost["self"] = v
                    judge(T, I, t, v)
            finally:
                self.steps += I.steps
                self.funcs |= {f.qual for f in I.visited}
            if I.cut:
                raise Undecided("loop goes on")
            self.rep.count("obligations")
        except GIVEUP as e:
            self.rep.undecide("%s (%s): %s" % (label, nm, e))
        except Bad as e:
            m = self.P.find_method(cls, op)
            self.rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), label, "%s: %s" % (nm, e))


def fine(v):
    if isinstance(v, Exc):
        raise Bad("%s at %s" % (v.name, v.where))


def field(I, st, o, nm):
    if o[0] != "o":
        raise Bad("no %s" % nm)
    for t, v in I.getattr(st, o, nm, None):
        if isinstance(v, Exc):
            raise Bad("no %s" % nm)
        yield t, v


def same(st, a, b):
    """are these numbers surely equal"""
    return a[0] == "num" and b[0] == "num" and (a == b or st.zone.decide_eq0(Z.sub(a[1], b[1])) is True)


# ---------------------------------------------------------------- forests
def before(T, st, ks=None):
    """-> [(state, {key: root})]"""
    out = [] if T.keys else [(st, {})]
    cur = [(st, {}, k, k) for k in T.keys[:1]]
    while cur:
        t, m, k, x = cur.pop()
        for u, p in T.parent(t, x):
            if p != x:
                cur.append((u, m, k, p))
                continue
            n = dict(m)
            n[k] = x
            i = T.keys.index(k) + 1
            if i == len(T.keys):
                out.append((u, n))
            else:
                cur.append((u, n, T.keys[i], T.keys[i]))
    return out


def now(T, I, st, keys):
    """-> [(state, {key: (root object, root's size)})]"""
    cur = [(st, {})]
    for k in keys:
        nxt = []
        for t0, m in cur:
            for t, tree in field(I, t0, t0.ghost["self"], "tree"):
                if not T.asmap(t, tree):
                    raise Undecided("the tree is no dictionary")
                for u, v in T.mget(t, tree, ("name", k)):
                    if v == ABSENT:
                        raise Bad("the key %s is not in the forest" % k)
                    todo = [(u, v, 0)]
                    while todo:
                        w, o, n = todo.pop()
                        if n > 12:
                            raise Bad("the parents of %s go round in a circle" % k)
                        for y, p in field(I, w, o, "parent"):
                            if p != o:
                                todo.append((y, p, n + 1))
                                continue
                            for z, s in field(I, y, o, "size"):
                                d = dict(m)
                                d[k] = (o, s)
                                nxt.append((z, d))
        cur = nxt
    return cur


def keyof(I, st, o):
    v = st.objs[o[1]].fields.get("key")
    if v is None or v[0] != "name":
        raise Undecided("key of a root")
    return v[1]


def forests(R, most):
    C = "DisjointSetForest"
    P = R.P

    def start(st, cls, I):
        tree = st.new("map", None, {"@base": ("kids", ()), "@o": ()})
        st.ghost["self"] = st.new("inst", cls, {"tree": tree})

    def judge_state(T, I, st, merged=None, root=None, new=None):
        """compare the forest with what it was; -> for each end (state, roots before)"""
        keys = T.keys + ((new,) if new else ())
        for t0, old in before(T, st.copy()):
            for t, cur in now(T, I, t0, keys):
                groups = {k: {x for x in T.keys if old[x] == old[k]} for k in T.keys}
                size = {k: T.size(t, old[k]) for k in T.keys}
                if new:
                    groups[new], size[new] = {new}, ("num", Z.const(1))
                bound = None
                if merged and old[merged[0]] != old[merged[1]]:
                    a, b = merged
                    g, s = groups[a] | groups[b], ("num", Z.add(size[a][1], size[b][1]))
                    bound = (old[a], old[b])
                    for k in g:
                        groups[k], size[k] = g, s
                for k in keys:
                    g = {x for x in keys if cur[x][0] == cur[k][0]}
                    if g - groups[k]:
                        raise Bad("%s and %s are in one set" % (k, min(g - groups[k])))
                    if groups[k] - g:
                        raise Bad("%s and %s are in different sets" % (k, min(groups[k] - g)))
                    r = keyof(I, t, cur[k][0])
                    if r not in groups[k]:
                        raise Bad("the root of %s is in another set" % k)
                    s = cur[k][1]
                    if s[0] != "num":
                        raise Undecided("size")
                    if not same(t, s, size[k]):
                        raise Bad("the size of the set of %s is not the number of its keys" % k)
                    if bound and k in groups[merged[0]]:
                        o = bound[1] if r == bound[0] else bound[0]
                        if r not in bound:
                            raise Bad("the root of the union is the root of neither set")
                        if t.zone.decide_le0(Z.sub(T.size(t, o)[1], T.size(t, r)[1])) is not True:
                            raise Bad("the root of the smaller set becomes the root of the union")
                    elif root and k in groups[root]:
                        if r != root:
                            raise Bad("the root of the set of %s is %s" % (root, r))
                    elif k != new and r != old[k]:
                        raise Bad("the root of %s changes" % k)
                yield t, old, cur

    def drain(it):
        for _ in it:
            pass

    def theory(n):
        return ForestTheory(P, tuple("abcdef"[:n]))

    def N(*ks):
        return lambda st: [("name", k) for k in ks]

    def refused(T, I, t, v):
        if not isinstance(v, Exc) or v.name != "KeyError":
            raise Bad("a key that is not in the forest is not refused with KeyError")
        if T.keys:
            drain(judge_state(T, I, t))

    def quiet(**kw):
        def judge(T, I, t, v):
            fine(v)
            drain(judge_state(T, I, t, **kw))
        return judge

    def found(T, I, t, v):
        fine(v)
        for u, old, cur in judge_state(T, I, t):
            if v != cur["a"][0]:
                raise Bad("the answer is not the root of the set")

    def sized(T, I, t, v):
        fine(v)
        for u, old, cur in judge_state(T, I, t):
            if v[0] != "num":
                raise Undecided("the answer")
            if not same(u, v, T.size(u, old["a"])):
                raise Bad("the answer is not the size of the set")

    def added(T, I, t, v):
        fine(v)
        for u, old, cur in judge_state(T, I, t, new="n"):
            o = cur["n"][0]
            if u.objs[o[1]].fields.get("key") != ("name", "n") or u.objs[o[1]].fields.get("data") != ("user", "given"):
                raise Bad("the new set does not have its key and data")

    def kept(T, I, t, v):
        fine(v)
        for u, old, cur in judge_state(T, I, t):
            if u.objs[T.node(u, ("a",))[1]].fields.get("data") != ("user", "data"):
                raise Bad("the data of a set that was there changes")

    def listed(T, I, t, v):
        fine(v)
        if v[0] != "o" or t.objs[v[1]].items is None:
            raise Undecided("the result is no list that is followed")
        gs = []
        for x in t.objs[v[1]].items:
            ys = list(x[1]) if x[0] == "tup" else t.objs[x[1]].items if x[0] == "o" else None
            if ys is None or any(y[0] != "name" for y in ys):
                raise Undecided("the sets listed")
            gs.append(tuple(y[1] for y in ys))
        for u, old, cur in judge_state(T, I, t):
            want = {frozenset(x for x in T.keys if old[x] == old[k]) for k in T.keys}
            if sorted(map(sorted, gs)) != sorted(map(sorted, want)):
                raise Bad("the sets are %s and not %s" % (sorted(map(sorted, gs)), sorted(map(sorted, want))))

    R.case(C, "make_set", "a new key", theory(2), start, lambda st: [("name", "n"), ("user", "given")], added)
    R.case(C, "make_set", "the first key", theory(0), start, lambda st: [("name", "n"), ("user", "given")], added0)
    R.case(C, "make_set", "a key that is there", theory(3), start, lambda st: [("name", "a"), ("user", "given")], kept)
    for n in range(3, most + 1):
        R.case(C, "find_root", "%d keys" % n, theory(n), start, N("a"), found)
        R.case(C, "find_size", "%d keys" % n, theory(n), start, N("a"), sized)
        R.case(C, "union", "two keys out of %d" % n, theory(n), start, N("a", "b"), quiet(merged=("a", "b")))
        R.case(C, "make_root", "%d keys" % n, theory(n), start, N("a"), quiet(root="a"))
    R.case(C, "union", "a key with itself", theory(3), start, N("a", "a"), quiet())
    for op, ks in (("find_root", "n"), ("find_size", "n"), ("make_root", "n"), ("union", "na"), ("union", "an"), ("union", "nn")):
        R.case(C, op, "a key that is not there", theory(2), start, N(*ks), refused)
    for n in range(most):
        R.case(C, "disjoint_sets", "%d keys" % n, theory(n), start, N(), listed if n else listed0)
    R.case(C, "__new__", "a new forest", theory(0), lambda st, cls, I: None, N(), fresh("tree"))


def added0(T, I, t, v):
    fine(v)
    for u, cur in now(T, I, t, ("n",)):
        o, s = cur["n"]
        if u.objs[o[1]].fields.get("key") != ("name", "n") or not same(u, s, ("num", Z.const(1))):
            raise Bad("the new set is no singleton")


def listed0(T, I, t, v):
    fine(v)
    if v[0] != "o" or t.objs[v[1]].items is None:
        raise Undecided("the result is no list that is followed")
    if t.objs[v[1]].items:
        raise Bad("sets are listed although there are none")


def fresh(nm):
    def judge(T, I, t, v):
        for u, m in field(I, t, v, nm):
            if not T.asmap(u, m) or u.objs[m[1]].fields["@base"] != ("none",):
                raise Undecided(nm)
            if u.objs[m[1]].fields["@o"]:
                raise Bad("it is not empty")
            for w, x in I.call(u, ("cls", u.objs[v[1]].cls), [], {}, None):
                fine(x)
                for y, n in field(I, w, x, nm):
                    if n == m:
                        raise Bad("two of them share one dictionary")
    return judge


# ---------------------------------------------------------------- multisets
def bags(R):
    C = "Multiset"

    def start(st, cls, I):
        m = st.new("map", None, {"@base": ("kids", ()), "@o": ()})
        st.ghost["self"] = st.new("inst", cls, {"counter": m, "_n": ("num", Z.sym("n")), "tree": ("rbt",)})

    def had(T, st, k):
        return [(t, T.count(t, k)) for t, _ in T.kid(st, (), k)]

    def contents(T, I, t, plus=0, minus=False, init=None):
        """judged by its own count and len, and by what the tree holds"""
        for u0, ca in had(T, t.copy(), "a") if init is None else [(t.copy(), None)]:
            for u, cb in had(T, u0, "b") if init is None else [(u0, None)]:
                if init is not None:
                    want, total = init, ("num", Z.const(sum(init.values())))
                    want = {k: ("num", Z.const(n)) for k, n in want.items()}
                    splits = [(u, 0)]
                else:
                    want = None
                    splits = [(u, plus)]
                    if minus:
                        splits = [(w, -1 if not z else 0) for w, z in I.split_le0(u, ca[1])]
                for w, d in splits:
                    if init is None:
                        want = {"a": ("num", Z.add(ca[1], Z.const(d))), "b": cb}
                        total = ("num", Z.sym("n", d))
                    for k in ("a", "b"):
                        for x, v in I.callmethod(w.copy(), w.ghost["self"], "count", [("name", k)], None):
                            fine(v)
                            if v[0] != "num":
                                raise Undecided("count")
                            if not same(x, v, want[k]):
                                raise Bad("the count of %s is wrong afterwards" % ("the element" if k == "a" else "another element"))
                            for y, z in I.split_le0(x, want[k][1]):
                                held = dict(y.ghost["tree"]).get(k)
                                if held is None:
                                    # as before: there iff its count was positive
                                    was = [(y, False)] if init is not None else [(p, not q) for p, q in I.split_le0(y, T.count(y, k)[1])]
                                else:
                                    was = [(y, held)]
                                for p, q in was:
                                    if q == z:
                                        raise Bad("the tree holds %s although it is %s" % (k, "not in the multiset") if q else
                                                  "the tree does not hold %s although it is in the multiset" % k)
                    for x, v in I.callmethod(w.copy(), w.ghost["self"], "__len__", [], None):
                        fine(v)
                        if v[0] != "num":
                            raise Undecided("length")
                        if not same(x, v, total):
                            raise Bad("the length is wrong afterwards")

    def changed(**kw):
        def judge(T, I, t, v):
            fine(v)
            contents(T, I, t, **kw)
        return judge

    def asked(T, I, t, v):
        fine(v)
        for u, c in had(T, t.copy(), "a"):
            for w, z in I.split_le0(u, c[1]):
                if v not in (TRUE, FALSE):
                    raise Undecided("the answer")
                if (v == TRUE) == z:
                    raise Bad("the answer is %s although the element is %sin the multiset" % ("True" if v == TRUE else "False", "not " if z else ""))
        contents(T, I, t)

    def counted(T, I, t, v):
        fine(v)
        for u, c in had(T, t.copy(), "a"):
            if not same(u, v, c):
                raise Bad("the answer is not the number of times the element is in the multiset")
        contents(T, I, t)

    def bound(op):
        def judge(T, I, t, v):
            fine(v)
            if v[0] in ("user", "name", "none", "num") and v != ("user", op + str(("name", "a"))):
                raise Bad("the answer is not the %s the tree gives" % op.replace("_", " "))
            if v != ("user", op + str(("name", "a"))):
                raise Undecided("the answer")
            contents(T, I, t)
        return judge

    def A(*ks):
        return lambda st: [("name", k) for k in ks]
    T = BagTheory(R.P)
    R.case(C, "add", "any element", T, start, A("a"), changed(plus=1))
    R.case(C, "remove", "any element", T, start, A("a"), changed(minus=True))
    R.case(C, "__contains__", "any element", T, start, A("a"), asked)
    R.case(C, "count", "any element", T, start, A("a"), counted)
    R.case(C, "__len__", "any multiset", T, start, A(), changed())
    R.case(C, "lower_bound", "any element", T, start, A("a"), bound("lower_bound"))
    R.case(C, "upper_bound", "any element", T, start, A("a"), bound("upper_bound"))
    none = lambda st, cls, I: None   # noqa: E731
    for ks in ("", "a", "aa", "ab", "aba"):
        R.case(C, "__init__", "%d elements" % len(ks), T, none, A(*ks), changed(init={"a": ks.count("a"), "b": ks.count("b")}))
    R.case(C, "__init__", "two new multisets", T, none, A(), fresh("counter"))


def check_sets(rep, tier):
    prog = Program()
    rep.rule("after an operation the keys are in the sets, with the sizes, and the elements have the counts its contract says")
    R = Runner(rep, prog)
    forests(R, 6 if tier == "thorough" else 4)
    bags(R)
    rep.count("final_states", R.states)
    rep.count("cases", R.cases)
    rep.count("abstract_steps", R.steps)
    rep.count("functions_interpreted", len(R.funcs))
