"""P14: tries.

A trie of any shape, seen along the characters of one string: the node of every prefix of it, a further child (X) of each
standing for any others, a second one (Z) below the string and two children (Y, V) of X there.  Which of the nodes are there and
which end a string are facts that are split when the code looks.  Strings have up to LEN characters, all of them unknown, in every
pattern of equal and different ones.  An operation is judged by the strings the trie holds afterwards.
"""
import ast

from .program import Program
from .shape import Shape, Theory, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE, num
from . import zone as Z

ABSENT = ("absent",)
LEN = 3


class Bad(Exception):
    pass


def text(cs):
    """the value of the string of these characters"""
    if not cs:
        return ("str", "")
    return ("name", cs[0]) if len(cs) == 1 else ("cat", tuple(("name", c) for c in cs))


def chars(v):
    if v == ("str", ""):
        return ()
    if v[0] == "name":
        return (v[1],)
    if v[0] == "cat" and all(x[0] == "name" for x in v[1]):
        return tuple(x[1] for x in v[1])
    return None


def patterns(n):
    """strings of up to n characters, one for every way they can be equal"""
    cur, out = [()], [()]
    for _ in range(n):
        cur = [w + (c,) for w in cur for c in "abcdef"[:len(set(w)) + 1]]
        out += cur
    return out


def say(q):
    return "'%s'" % "".join(q)


class TrieTheory(Theory):
    dictcomps = one_default = True
    strings = ("format", "join")

    def __init__(self, prog, w):
        self.P, self.w = prog, w
        self.ncls = prog.require_class("TrieNode")

    # ------------------------------------------------------------ the trie there was
    def possible(self, q):
        n = len(q)
        if q == self.w[:n]:
            return (self.w[n], "X") if n < len(self.w) else ("X", "Z")
        return ("Y", "V") if q == self.w + ("X",) else ()

    def siblings(self, a, b):
        return any({a, b} <= set(self.possible(q)) for q in [self.w[:n] for n in range(len(self.w) + 1)] + [self.w + ("X",)])

    def known(self, st, rel, k):
        return dict(st.ghost[rel]).get(k)

    def put(self, st, rel, k, v):
        st.ghost[rel] = tuple(sorted(set(st.ghost[rel]) | {(k, v)}))

    def kid(self, st, q, c):
        """has the node of q a child for c -> [(state, bool)]"""
        if c not in self.possible(q):
            return [(st, False)]
        k = self.known(st, "kid", (q, c))
        if k is not None:
            return [(st, k)]
        others = [self.known(st, "kid", (q, d)) for d in self.possible(q) if d != c]
        if q and self.known(st, "end", q) is False and all(x is False for x in others):
            self.put(st, "kid", (q, c), True)        # a node that ends no string has children
            return [(st, True)]
        a, b = self.I.alts(st, 2)
        self.put(a, "kid", (q, c), True)
        self.put(b, "kid", (q, c), False)
        return [(a, True), (b, False)]

    def ends(self, st, q):
        k = self.known(st, "end", q)
        if k is not None:
            return [(st, k)]
        if q and all(self.known(st, "kid", (q, d)) is False for d in self.possible(q)):
            self.put(st, "end", q, True)
            return [(st, True)]
        a, b = self.I.alts(st, 2)
        self.put(a, "end", q, True)
        self.put(b, "end", q, False)
        return [(a, True), (b, False)]

    def there(self, st, q):
        """was the node of q there -> [(state, bool)]"""
        cur, out = [st], []
        for i in range(len(q)):
            nxt = []
            for t in cur:
                for u, k in self.kid(t, q[:i], q[i]):
                    (nxt if k else out).append(u if k else (u, False))
            cur = nxt
        return out + [(t, True) for t in cur]

    def had(self, st, q):
        """was the string q in the trie -> [(state, bool)]"""
        return [x for t, k in self.there(st, q) for x in (self.ends(t, q) if k else [(t, False)])]

    def node(self, st, q):
        for k, v in st.ghost["node"]:
            if k == q:
                return v
        m = st.new("map", None, {"@base": ("kids", q), "@o": ()})
        v = st.new("inst", self.ncls, {"char": ("name", q[-1]) if q else NONE, "_children": m})
        st.ghost["node"] += ((q, v),)
        return v

    def path(self, st, v):
        for k, x in st.ghost["node"]:
            if x == v:
                return k
        return None

    def missing(self, st, b, nm, node):
        q = self.path(st, b)
        if q is not None and nm == "is_terminal":
            out = []
            for t, k in self.ends(st, q):
                t.objs[b[1]].fields[nm] = TRUE if k else FALSE
                out.append((t, TRUE if k else FALSE))
            return out
        return None

    # ------------------------------------------------------------ dictionaries
    def asmap(self, st, v):
        if v[0] != "o":
            return False
        o = st.objs[v[1]]
        if o.kind == "dict":
            o.kind = "map"
            o.fields = {"@base": ("none",), "@o": o.fields["@pairs"]}
        return o.kind == "map"

    def mget(self, st, b, k):
        o = st.objs[b[1]]
        for x, v in o.fields["@o"]:
            if x == k:
                return [(st, v)]
        if k[0] == "o" and st.objs[k[1]].kind == "inst" and o.fields["@base"][0] == "none" and not self.P.find_method(st.objs[k[1]].cls, "__eq__"):
            return [(st, ABSENT)]                # another object
        if k[0] not in ("name", "none", "str"):
            raise Undecided("look up of %s" % k[0])
        base = o.fields["@base"]
        if base[0] == "none" or k[0] != "name":
            return [(st, ABSENT)]
        out = []
        for t, r in self.kid(st, base[1], k[1]):
            v = self.node(t, base[1] + (k[1],)) if r else ABSENT
            self.mset(t, b, k, v)
            out.append((t, v))
        return out

    def mset(self, st, b, k, v):
        o = st.objs[b[1]]
        o.fields["@o"] = tuple([(x, v if x == k else y) for x, y in o.fields["@o"]] + ([] if k in dict(o.fields["@o"]) else [(k, v)]))

    def mput(self, st, b, k, v):
        out = []
        for t, _ in self.mget(st, b, k):
            self.mset(t, b, k, v)
            out.append((t, NONE))
        return out

    def mdel(self, st, b, k, default, node):
        out = []
        for t, old in self.mget(st, b, k):
            if old == ABSENT:
                out.append((t, default if default is not None else Exc("KeyError", self.I.where(t, node))))
            else:
                self.mset(t, b, k, ABSENT)
                out.append((t, old))
        return out

    def full(self, st, b):
        """-> [(state, the pairs of the dictionary)]"""
        base = st.objs[b[1]].fields["@base"]
        cur = [st]
        if base[0] == "kids":
            for c in self.possible(base[1]):
                cur = [u for t in cur for u, _ in self.mget(t, b, ("name", c))]
        return [(t, [x for x in t.objs[b[1]].fields["@o"] if x[1] != ABSENT]) for t in cur]

    def some(self, st, b):
        """is there anything in the dictionary -> [(state, bool)]"""
        out, cur = [], [st]
        if any(v != ABSENT for _, v in st.objs[b[1]].fields["@o"]):
            return [(st, True)]
        base = st.objs[b[1]].fields["@base"]
        if base[0] == "kids":
            for c in self.possible(base[1]):
                nxt = []
                for t in cur:
                    for u, v in self.mget(t, b, ("name", c)):
                        (nxt if v == ABSENT else out).append(u if v == ABSENT else (u, True))
                cur = nxt
        return out + [(t, False) for t in cur]

    def mapcall(self, st, m, b, args, node):
        if m == "get":
            return [(t, (args[1] if len(args) > 1 else NONE) if v == ABSENT else v) for t, v in self.mget(st, b, args[0])]
        if m == "pop":
            return self.mdel(st, b, args[0], args[1] if len(args) > 1 else None, node)
        if m == "setdefault":
            out = []
            for t, v in self.mget(st, b, args[0]):
                if v == ABSENT:
                    v = args[1] if len(args) > 1 else NONE
                    self.mset(t, b, args[0], v)
                out.append((t, v))
            return out
        if m in ("items", "keys", "values", "copy"):
            out = []
            for t, ps in self.full(st, b):
                if m == "copy":
                    out.append((t, t.new("map", None, {"@base": ("none",), "@o": tuple(ps)})))
                else:
                    out.append((t, ("tup", tuple(k if m == "keys" else v if m == "values" else ("tup", (k, v)) for k, v in ps))))
            return out
        if m == "clear":
            st.objs[b[1]].fields.update({"@base": ("none",), "@o": ()})
            return [(st, NONE)]
        raise Undecided("dict.%s at %s" % (m, self.I.where(st, node)))

    # ------------------------------------------------------------ hooks of the engine
    def isbag(self, st, v):
        return v[0] == "o" and st.objs[v[1]].kind in ("map", "dict") and self.asmap(st, v)

    def candidates(self, st, v):
        o = st.objs[v[1]]
        ks = [k for k, x in o.fields["@o"] if x != ABSENT]
        if o.fields["@base"][0] == "kids":
            ks += [("name", c) for c in self.possible(o.fields["@base"][1]) if ("name", c) not in dict(o.fields["@o"])]
        return tuple(ks)

    def advance(self, st, v, left, node):
        if not left:
            return [(st, None, None)]
        return [(t, None if x == ABSENT else left[0], left[1:]) for t, x in self.mget(st, v, left[0])]

    def items(self, st, v):
        """the characters of a string"""
        c = chars(v)
        return None if c is None else [("name", x) for x in c]

    def joined(self, parts):
        out = []
        for p in parts:
            c = chars(p)
            if c is None:
                return ("strtop",)
            out += c
        return text(tuple(out))

    def binop(self, st, op, a, b, node):
        k = ("name", "cat", "str")
        if a[0] in k + ("none",) and b[0] in k + ("none",) and isinstance(op, ast.Add):
            if NONE in (a, b):
                return [(st, Exc("TypeError", self.I.where(st, node)))]
            return [(st, self.joined([a, b]))]
        if isinstance(op, ast.Mod) and a[0] == "str":
            vs = list(b[1]) if b[0] == "tup" else [b]
            ps = a[1].split("%s")
            if len(ps) == len(vs) + 1 and "%" not in a[1].replace("%s", ""):
                parts = [("str", ps[0])]
                for x, p in zip(vs, ps[1:]):
                    parts += [x, ("str", p)]
                return [(st, self.joined(parts))]
        return None

    def equal(self, st, a, b, node):
        if a[0] in ("name", "cat", "str") and b[0] in ("name", "cat", "str"):
            x, y = chars(a), chars(b)
            if x is None or y is None:
                return None
            if len(x) != len(y):
                return [(st, False)]
            if x == y:
                return [(st, True)]
            known = set(self.w)
            if any(p != q and {p, q} <= known for p, q in zip(x, y)) or len(x) == 1 and self.siblings(x[0], y[0]):
                return [(st, False)]
            return self.I.both(st)
        if a[0] in ("name", "cat") or b[0] in ("name", "cat"):
            return [(st, False)]
        return None

    def truth(self, st, v):
        if v[0] == "o" and st.objs[v[1]].cls is None and self.asmap(st, v):
            return self.some(st, v)
        if v[0] in ("name", "cat"):
            return [(st, True)]
        return None

    def contains(self, st, a, b, node):
        if b[0] == "o" and self.asmap(st, b):
            return [(t, x != ABSENT) for t, x in self.mget(st, b, a)]
        raise Undecided("membership at %s" % self.I.where(st, node))

    def getattr(self, st, b, nm, node):
        if b[0] == "str":
            return [(st, ("strm", nm, b))]
        if b[0] in ("name", "cat"):
            raise Undecided("string method %s at %s" % (nm, self.I.where(st, node)))
        if b[0] == "o" and st.objs[b[1]].cls is None:
            if st.objs[b[1]].kind in ("map", "dict") and self.asmap(st, b):
                return [(st, ("mapm", nm, b))]
            if nm in ("push", "peek", "is_empty", "size"):
                l = st.objs[b[1]].items
                if l is not None and nm == "push":
                    return self.I.getattr(st, b, "append", node)
                if l is not None and nm == "is_empty":
                    return [(st, TRUE if not l else FALSE)]
                if l is not None and nm == "size":
                    return [(st, num(len(l)))]
                if l:
                    return [(st, l[-1])]
                raise Undecided(nm)
        return None

    def getitem(self, st, b, i, node):
        if b[0] == "o" and st.objs[b[1]].cls is None and self.asmap(st, b):
            return [(t, Exc("KeyError", self.I.where(t, node)) if x == ABSENT else x) for t, x in self.mget(st, b, i)]
        c = chars(b) if b[0] in ("name", "cat", "str") else None
        if c is not None:
            if i[0] != "num" or not Z.is_const(i[1]):
                raise Undecided("character at %s" % self.I.where(st, node))
            if not -len(c) <= i[1][1] < len(c):
                return [(st, Exc("IndexError", self.I.where(st, node)))]
            return [(st, ("name", c[i[1][1]]))]
        return None

    def setitem(self, st, b, i, v, node):
        if b[0] == "o" and st.objs[b[1]].cls is None and self.asmap(st, b):
            return [(t, None) for t, _ in self.mput(st, b, i, v)]
        return None

    def delitem(self, st, b, i, node):
        if b[0] == "o" and st.objs[b[1]].cls is None and self.asmap(st, b):
            return [(t, x if isinstance(x, Exc) else None) for t, x in self.mdel(st, b, i, None, node)]
        return None

    def slices(self, st, v):
        return v[0] in ("name", "cat", "str") and chars(v) is not None

    def slice(self, st, b, lo, hi, node):
        ix = []
        for x in (lo, hi):
            if x != NONE and (x[0] != "num" or not Z.is_const(x[1])):
                raise Undecided("slice at %s" % self.I.where(st, node))
            ix.append(None if x == NONE else x[1][1])
        return [(st, text(chars(b)[ix[0]:ix[1]]))]

    def call(self, st, f, args, kw, node):
        if f[0] == "strm" and f[1] == "join" and args:
            xs = self.I.exact_items(args[0], st)
            if xs is None or f[2] != ("str", ""):
                raise Undecided("join at %s" % self.I.where(st, node))
            return [(st, self.joined(xs))]
        if f[0] == "strm" and f[1] == "format" and not kw and f[2][1].replace("{}", "") == "" and f[2][1].count("{}") == len(args):
            return [(st, self.joined(args))]
        if f[0] == "strm":
            raise Undecided("string method %s at %s" % (f[1], self.I.where(st, node)))
        if f[0] == "mapm":
            return self.mapcall(st, f[1], f[2], args, node)
        if f[0] == "cls" and getattr(f[1], "name", "") == "Stack" and not args and set(kw) <= {"implementation"}:
            return [(st, st.new("list", None, None, []))]       # a stack is last in, first out (P10, P12)
        if f[0] == "native":
            n = f[1]
            if n == "len" and args and args[0][0] in ("name", "cat", "str") and chars(args[0]) is not None:
                return [(st, num(len(chars(args[0]))))]
            if n == "str" and args and args[0][0] in ("name", "cat"):
                return [(st, args[0])]
            if n == "len" and args and args[0][0] == "o" and st.objs[args[0][1]].cls is None and self.asmap(st, args[0]):
                return [(t, num(len(ps))) for t, ps in self.full(st, args[0])]
            if n in ("list", "tuple", "sorted", "reversed", "iter", "bool") and args and args[0][0] == "o" and \
                    st.objs[args[0][1]].cls is None and self.asmap(st, args[0]):
                if n == "bool":
                    return [(t, TRUE if r else FALSE) for t, r in self.some(st, args[0])]
                return [(t, t.new("list", None, None, [k for k, _ in ps])) for t, ps in self.full(st, args[0])]
        return None


class Runner:
    def __init__(self, rep, prog, tier):
        self.rep, self.P = rep, prog
        self.cls = prog.require_class("Trie")
        self.states = self.steps = self.cases = 0
        self.longest = LEN + 1 if tier == "thorough" else LEN
        self.funcs = set()

    def start(self, w):
        T = TrieTheory(self.P, w)
        I = Shape(self.P, T)
        I.MAXSTEPS, I.unroll = 400000, 40
        st = State()
        st.ghost.update({"kid": (), "end": (), "node": ()})
        st.ghost["trie"] = st.new("inst", self.cls, {"root": T.node(st, ())})
        return T, I, st

    def case(self, op, judge):
        label = "Trie.%s" % op
        m = self.P.find_method(self.cls, op)
        for w in patterns(self.longest):
            self.cases += 1
            nm = "the string %s" % say(w)
            try:
                T, I, st = self.start(w)
                try:
                    for t, v in I.callmethod(st, st.ghost["trie"], op, [text(w)], None):
                        self.states += 1
                        judge(Final(self, T, I, w), t, v)
                finally:
                    self.steps += I.steps
                    self.funcs |= {f.qual for f in I.visited}
                if I.cut:
                    raise Undecided("loop goes on")
                self.rep.count("obligations")
            except GIVEUP as e:
                self.rep.undecide("%s (%s): %s" % (label, nm, e))
            except Bad as e:
                self.rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), label, "%s: %s" % (nm, e))


class Final:
    def __init__(self, R, T, I, w):
        self.R, self.T, self.I, self.w = R, T, I, w
        # every string the view can hold
        self.all = []
        todo = [()]
        while todo:
            q = todo.pop()
            self.all.append(q)
            todo += [q + (c,) for c in T.possible(q)]
        self.all.sort(key=lambda q: (len(q), q))

    def attr(self, st, o, nm):
        for t, v in self.I.getattr(st, o, nm, None):
            if isinstance(v, Exc):
                raise Bad("a node has no %s" % nm)
            yield t, v

    def find(self, st, q):
        """the node of q now -> (state, object | None)"""
        cur = [(st, x) for st, x in self.attr(st, st.ghost["trie"], "root")]
        for i, c in enumerate(q):
            nxt = []
            for t, o in cur:
                if o is None:
                    nxt.append((t, None))
                    continue
                if o[0] != "o":
                    raise Bad("no node for %s" % say(q[:i]))
                for u, m in self.attr(t, o, "_children"):
                    if not self.T.asmap(u, m):
                        raise Undecided("the children are no dictionary")
                    for x, v in self.T.mget(u, m, ("name", c)):
                        nxt.append((x, None if v == ABSENT else v))
            cur = nxt
        return cur

    def strange(self, st, o, q):
        """children that belong to no string the view knows"""
        for t, m in self.attr(st, o, "_children"):
            if self.T.asmap(t, m):
                for k, v in t.objs[m[1]].fields["@o"]:
                    if v != ABSENT and k not in [("name", c) for c in self.T.possible(q)]:
                        raise Bad("the node of %s has a child nobody asked for" % say(q))

    def now(self, st):
        """-> [(state, strings in the trie, nodes in the trie)]"""
        cur = [(st, (), ())]
        for q in self.all:
            nxt = []
            for t, ss, ns in cur:
                if q and q[:-1] not in ns:
                    nxt.append((t, ss, ns))
                    continue
                for u, o in self.find(t, q):
                    if o is None:
                        nxt.append((u, ss, ns))
                        continue
                    self.strange(u, o, q)
                    for x, c in self.attr(u, o, "char"):
                        if q and c != ("name", q[-1]):
                            raise Bad("the node of %s does not have its character" % say(q))
                    for x, e in self.attr(u, o, "is_terminal"):
                        if e not in (TRUE, FALSE, NONE):
                            raise Undecided("is_terminal")
                        nxt.append((x, ss + ((q,) if e == TRUE else ()), ns + (q,)))
            cur = nxt
        return cur

    def before(self, st):
        """-> [(state, the strings there were)]"""
        cur = [(st, ())]
        for q in self.all:
            cur = [(u, ss + ((q,) if k else ())) for t, ss in cur for u, k in self.T.had(t, q)]
        return cur

    def contents(self, st, plus=None, minus=None):
        for t, ss, ns in self.now(st.copy()):
            for u, old in self.before(t):
                want = set(old) | ({plus} if plus is not None else set())
                want -= {minus} if minus is not None else set()
                for q in sorted(want ^ set(ss)):
                    raise Bad("the string %s is %s" % (say(q), "not in the trie any more" if q in want and q != plus else
                                                       "not in the trie afterwards" if q in want else
                                                       "still in the trie" if q == minus else "in the trie although nobody inserted it"))
                for q in ns:
                    if q and not any(s[:len(q)] == q for s in want):
                        raise Bad("the prefix %s is still present although no string has it" % say(q))


def fine(v):
    if isinstance(v, Exc):
        raise Bad("%s at %s" % (v.name, v.where))


def check_tries(rep, tier):
    prog = Program()
    rep.rule("after an operation the trie holds exactly the strings its contract says, and no node that leads to none of them")
    R = Runner(rep, prog, tier)

    def insert(F, st, v):
        fine(v)
        F.contents(st, plus=F.w)
    R.case("insert", insert)

    def delete(F, st, v):
        fine(v)
        for t, k in F.T.had(st.copy(), F.w):
            if v not in (TRUE, NONE, FALSE):
                raise Undecided("the answer")
            if (v == TRUE) != k:
                raise Bad("the answer is %s although the string was %sin the trie" % ("True" if v == TRUE else "not True", "" if k else "not "))
            F.contents(t, minus=F.w)
    R.case("delete", delete)

    def present(F, st, v):
        fine(v)
        for t, k in F.T.there(st.copy(), F.w):
            if v not in (TRUE, FALSE):
                raise Undecided("the answer")
            if (v == TRUE) != k:
                raise Bad("the answer is %s although %s string has that prefix" % ("True" if v == TRUE else "False", "a" if k else "no"))
            F.contents(t)
    R.case("is_present", present)

    def inserted(F, st, v):
        fine(v)
        for t, k in F.T.had(st.copy(), F.w):
            if v not in (TRUE, FALSE):
                raise Undecided("the answer")
            if (v == TRUE) != k:
                raise Bad("the answer is %s although the string was %sinserted" % ("True" if v == TRUE else "False", "" if k else "not "))
            F.contents(t)
    R.case("is_inserted", inserted)

    def listed(F, st, v):
        fine(v)
        if v[0] != "o" or st.objs[v[1]].items is None:
            raise Undecided("the result is no list that is followed")
        got = []
        for x in st.objs[v[1]].items:
            if x == NONE:
                raise Bad("None is among the strings")
            if chars(x) is None:
                raise Undecided("the strings")
            got.append(chars(x))
        for t, old in F.before(st.copy()):
            want = {q for q in old if q[:len(F.w)] == F.w}
            for q in sorted(set(got) - want):
                raise Bad("%s is listed although it is no string with the prefix" % say(q))
            for q in sorted(want - set(got)):
                raise Bad("%s is not listed" % say(q))
            if len(got) != len(set(got)):
                raise Bad("a string is listed twice")
            F.contents(t)
    R.case("strings_with_prefix", listed)
    try:
        T, I, st = R.start(())
        for t, v in I.call(st, ("cls", R.cls), [], {}, None):
            fine(v)
            t.ghost["trie"] = v
            F = Final(R, T, I, ())
            for u, ss, ns in F.now(t):
                if ss or ns != ((),):
                    raise Bad("a new trie is not empty")
            for u, w in I.call(t, ("cls", R.cls), [], {}, None):
                if u.objs[v[1]].fields.get("root") == u.objs[w[1]].fields.get("root"):
                    raise Bad("two tries share one root")
        rep.count("obligations")
    except GIVEUP as e:
        rep.undecide("Trie.__new__: %s" % e)
    except Bad as e:
        m = prog.find_method(R.cls, "__new__")
        rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), "Trie.__new__", str(e))
    rep.count("final_states", R.states)
    rep.count("cases", R.cases)
    rep.count("abstract_steps", R.steps)
    rep.count("functions_interpreted", len(R.funcs))
