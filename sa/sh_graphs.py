"""Graphs: exactly the vertices and edges put into them (shape analysis).

The graph before the operation is any well formed one.  Only the vertices the operation is given (U, V) and two
generic other ones (C, D) are represented; all further vertices are one summary vertex R about which nothing is
remembered from one visit to the next.  Whether one represented vertex is adjacent to another, and whether that edge
has a cost, is decided the first time the code asks (both answers are followed).  Lists of names and dictionaries
are held by what was added to and removed from the initial ones, and visited in every order.  After the operation
the graph's own queries are interpreted on the result and compared with what the operation's contract says."""
import ast

from . import zone as Z
from .program import Program
from .shape import Shape, Theory, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE, TOP, num

N = Z.sym("N")
ABSENT = ("absent",)
ADJ = ("adjnode",)
REST, ANY = ("name", "R"), ("name", "?")


class Bad(Exception):
    pass


def name(x):
    return ("name", x)


def isname(v):
    return v[0] == "name"


def pair(k):
    """the two names a composite key is made of, and what is around them"""
    ps, shape = [], []

    def go(v):
        if isname(v):
            ps.append(v[1])
            shape.append("*")
        elif v[0] in ("cat", "tup"):
            shape.append(v[0])
            for x in v[1]:
                go(x)
        else:
            shape.append(v)
    go(k)
    return tuple(ps), tuple(shape)


def vague(v):
    return v == ANY or isinstance(v, tuple) and any(vague(x) for x in v if isinstance(x, tuple))


def rest(v):
    return v == REST or isinstance(v, tuple) and any(rest(x) for x in v if isinstance(x, tuple))


class GraphTheory(Theory):
    symbolic_lists = dictcomps = one_default = True
    strings = ("format",)

    def __init__(self, prog, matrix, shape, focus):
        self.P, self.matrix, self.shape, self.focus = prog, matrix, shape, focus
        self.measured = set()
        self.learning = False

    def roots(self, st):
        return []

    # ------------------------------------------------------------ what holds initially
    def put(self, st, rel, k, v):
        st.ghost[rel] = tuple(sorted(set(st.ghost[rel]) | {(k, v)}))

    def known(self, st, rel, y, x):
        return dict(st.ghost[rel]).get((y, x))

    def present(self, st, x):
        return x in ("R", "?") or x in st.ghost["in"]

    def rel(self, st, y, x):
        """is x adjacent to y initially -> [(state, bool)]"""
        if "?" in (y, x):
            return self.I.both(st)
        k = self.known(st, "adj", y, x)
        if k is not None:
            return [(st, k)]
        if not self.present(st, x) and x != y or self.matrix and not self.present(st, y):
            return [(st, False)]
        if not self.present(st, x) and self.present(st, y):
            return [(st, False)]
        a, b = self.I.alts(st, 2)
        self.put(a, "adj", (y, x), True)
        self.put(b, "adj", (y, x), False)
        self.put(b, "cost", (y, x), False)
        return [(a, True), (b, False)]

    def cost(self, st, y, x):
        k = self.known(st, "cost", y, x)
        if k is not None:
            return [(st, k)]
        if not self.present(st, x) or not self.present(st, y) or self.known(st, "adj", y, x) is False:
            return [(st, False)]
        a, b = self.I.alts(st, 2)
        self.put(a, "cost", (y, x), True)
        self.put(a, "adj", (y, x), True)
        self.put(b, "cost", (y, x), False)
        return [(a, True), (b, False)]

    def forget(self, st):
        """R is about to stand for another vertex"""
        for rel in ("adj", "cost"):
            st.ghost[rel] = tuple(x for x in st.ghost[rel] if "R" not in x[0])
        r = self.node(st, "R")
        for i, o in st.objs.items():
            o.fields.pop("@v:R", None)
            if "@o" in o.fields:
                o.fields["@o"] = tuple(x for x in o.fields["@o"] if not rest(x[0]))
            if "@c" in o.fields:
                o.fields["@c"] = tuple(x for x in o.fields["@c"] if x[0] != "R")
        o = st.objs[r[1]]
        for k in [k for k in o.fields if k.startswith("@v:")]:
            del o.fields[k]
        if not self.matrix:
            o.fields["adjacent"] = st.ghost["radj"]
            st.objs[st.ghost["radj"][1]].fields.update({"@c": (), "@d": 0, "@dirty": False})
        elif st.ghost["rrow"] is not None:
            st.objs[st.ghost["rrow"][1]].fields.update({"@o": (), "@dirty": False})

    def node(self, st, x):
        return dict(st.ghost["node"])[x]

    def nodename(self, st, v):
        if v[0] == "o":
            for x, o in st.ghost["node"]:
                if o == v:
                    return x
        return None

    def isgraph(self, st, v):
        return v[0] == "o" and st.objs[v[1]].cls is self.gcls

    # ------------------------------------------------------------ attributes named by vertices
    def nget(self, st, b, x, node):
        """-> [(state, value or ABSENT)]"""
        if x == "?":
            raise Undecided("attribute of an unknown name")
        o = st.objs[b[1]]
        f = "@v:" + x
        if self.isgraph(st, b):
            if x == "R":
                return [(st, self.node(st, "R"))]
            return [(st, o.fields.get(f, ABSENT))]
        y = self.nodename(st, b)
        if f in o.fields:
            return [(st, o.fields[f])]
        if y is None:
            return [(st, ABSENT)]
        if y == "?":
            return [(t, ADJ if r else ABSENT) for t, r in self.I.both(st)]
        if self.matrix:
            return [(st, ABSENT)]
        return [(t, ADJ if r else ABSENT) for t, r in self.rel(st, y, x)]

    def nread(self, st, b, x, node):
        out = []
        for t, v in self.nget(st, b, x, node):
            if v == ABSENT:
                v = Exc("AttributeError", self.I.where(t, node))
            elif v == ADJ:
                v = t.new("inst", self.P.require_class("AdjacencyListGraphNode"), {"name": name(x), "data": TOP})
            out.append((t, v))
        return out

    def owner(self, st, b):
        return b[0] == "o" and st.objs[b[1]].cls is not None

    def nwrite(self, st, b, x, v):
        if x == "?":
            raise Undecided("attribute of an unknown name")
        if not (self.isgraph(st, b) and x == "R"):
            st.objs[b[1]].fields["@v:" + x] = v if self.isgraph(st, b) else ADJ
        return [(st, NONE)]

    def ndel(self, st, b, x, node):
        out = []
        for t, v in self.nget(st, b, x, node):
            if v == ABSENT:
                out.append((t, Exc("AttributeError", self.I.where(t, node))))
                continue
            if self.isgraph(t, b):
                t.objs[b[1]].fields.pop("@v:" + x, None)
            else:
                t.objs[b[1]].fields["@v:" + x] = ABSENT
            out.append((t, NONE))
        return out

    def missing(self, st, b, nm, node):
        if self.isgraph(st, b) or self.nodename(st, b) is not None:
            raise Undecided("attribute %s of a graph or vertex at %s" % (nm, self.I.where(st, node)))
        return None

    # ------------------------------------------------------------ lists of names
    def isblist(self, st, v):
        return v[0] == "o" and "@bag" in st.objs[v[1]].fields

    def count(self, st, b, x):
        """-> [(state, how often the list has x)]"""
        o = st.objs[b[1]]
        c = dict(o.fields["@c"]).get(x)
        if c is not None:
            return [(st, c)]
        base = o.fields["@bag"]
        if base[0] == "verts":
            return [(st, 1 if self.present(st, x) else 0)]
        return [(t, 1 if r else 0) for t, r in self.rel(st, base[1], x)]

    def some(self, st, b):
        """an element at a place nobody knows -> [(state, its name, or None for one that is not followed)]"""
        out = [(st.copy(), None)]
        for x in self.mentioned(st):
            if st.objs[b[1]].fields["@bag"][0] == "adj" and not self.tracked(st, st.objs[b[1]].fields["@bag"][1], x):
                continue
            out += [(t, x) for t, c in self.count(st.copy(), b, x) if c]
        return out

    def setcount(self, st, b, x, n, d):
        o = st.objs[b[1]]
        o.fields["@c"] = tuple(sorted(dict(o.fields["@c"], **{x: n}).items()))
        o.fields["@d"] += d
        o.fields["@dirty"] = True

    def copylist(self, st, b):
        o = st.objs[b[1]]
        if o.items is not None:
            return st.new("list", None, None, list(o.items))
        return st.new("list", None, {k: o.fields[k] for k in ("@bag", "@c", "@d")} | {"@dirty": False})

    def listcall(self, st, m, b, args, node):
        I = self.I
        o = st.objs[b[1]]
        if o.items is not None:
            if m == "append" and args[0][0] not in ("num", "bool"):
                if not (rest(args[0]) or args[0] == self.node(st, "R")) or args[0] not in o.items:
                    o.items.append(args[0])
                    if st.ghost.get("loop"):
                        pass
                    o.items.sort(key=repr)
                return [(st, NONE)]
            if m == "remove" and (isname(args[0]) or args[0][0] == "o"):
                if args[0] in o.items:
                    o.items.remove(args[0])
                    return [(st, NONE)]
                return [(st, Exc("ValueError", I.where(st, node)))]
            if m == "copy":
                return [(st, self.copylist(st, b))]
            return None
        if m == "copy":
            return [(st, self.copylist(st, b))]
        if m == "pop" and args and args[0][0] == "pos" and args[0][1] == b:
            return [(t, r if isinstance(r, Exc) else name(args[0][2])) for t, r in self.listcall(st, "remove", b, [name(args[0][2])], node)]
        if m == "index" and len(args) == 1 and isname(args[0]) and args[0] != ANY:
            return [(t, ("pos", b, args[0][1]) if c else Exc("ValueError", I.where(t, node))) for t, c in self.count(st, b, args[0][1])]
        if m == "pop":
            out = []
            for t, x in self.some(st, b):
                if x is None:
                    out.append((t, REST))
                else:
                    self.setcount(t, b, x, dict(t.objs[b[1]].fields["@c"]).get(x, 1) - 1, -1)
                    out.append((t, name(x)))
            return out
        if m in ("append", "remove", "count", "index") and args[0][0] != "name" or m in ("append", "remove", "count") and args[0] == ANY:
            raise Undecided("list.%s at %s" % (m, I.where(st, node)))
        out = []
        if m in ("append", "remove", "count"):
            x = args[0][1]
            for t, c in self.count(st, b, x):
                if m == "count":
                    out.append((t, num(c)))
                elif m == "append":
                    self.setcount(t, b, x, c + 1, 1)
                    out.append((t, NONE))
                elif c == 0:
                    out.append((t, Exc("ValueError", I.where(t, node))))
                else:
                    self.setcount(t, b, x, c - 1, -1)
                    out.append((t, NONE))
            return out
        raise Undecided("list.%s at %s" % (m, I.where(st, node)))

    # ------------------------------------------------------------ dictionaries
    def asmap(self, st, v):
        if v[0] != "o":
            return False
        o = st.objs[v[1]]
        if o.kind == "dict":
            o.kind = "map"
            o.fields = {"@base": ("none",), "@o": o.fields["@pairs"], "@dirty": False}
        return o.kind == "map"

    def mget(self, st, b, k):
        """-> [(state, value or ABSENT)]"""
        o = st.objs[b[1]]
        for x, v in o.fields["@o"]:
            if x == k:
                return [(st, v)]
        base = o.fields["@base"]
        if base[0] == "none":
            return [(st, ABSENT)]
        if vague(k):
            raise Undecided("look up of an unknown key")
        if base[0] == "rows":
            if not isname(k) or not self.present(st, k[1]):
                return [(st, ABSENT)]
            if k == REST:
                if st.ghost["rrow"] is None:
                    st.ghost["rrow"] = st.new("map", None, {"@base": ("row", "R"), "@o": (), "@dirty": False})
                return [(st, st.ghost["rrow"])]
            r = st.new("map", None, {"@base": ("row", k[1]), "@o": (), "@dirty": False})
            self.mset(st, b, k, r, False)
            return [(st, r)]
        if base[0] == "row":
            if not isname(k):
                return [(st, ABSENT)]
            return [(t, TRUE if r else ABSENT) for t, r in self.rel(st, base[1], k[1])]
        if self.shape is None and base[0] == "costs" and not self.learning:
            raise Undecided("the form of the keys of the costs")
        ps, shape = pair(k)
        if len(ps) != 2 or shape != self.shape:
            return [(st, ABSENT)]
        if base[0] == "partial":
            if ps in self.focus:
                return [(st, ABSENT)]
            raise Undecided("look up in a dictionary built from the costs")
        out = []
        for t, r in self.cost(st, *ps):
            if not r:
                out.append((t, ABSENT))
                continue
            e = self.edge(t, ps)
            self.mset(t, b, k, e, False)
            out.append((t, e))
        return out

    def edge(self, st, ps):
        """the edge object the graph had for the pair"""
        for k, v in st.ghost["edges"]:
            if k == ps:
                return v
        e = st.new("inst", self.P.require_class("GraphEdge"), {
            "source": self.node(st, ps[0]), "target": self.node(st, ps[1]), "value": ("user", ("cost",) + ps)})
        if not rest(tuple(("name", x) for x in ps)):
            st.ghost["edges"] += ((ps, e),)
        return e

    def mset(self, st, b, k, v, dirty=True):
        o = st.objs[b[1]]
        o.fields["@o"] = tuple(sorted([x for x in o.fields["@o"] if x[0] != k] + [(k, v)], key=repr))
        if dirty:
            o.fields["@dirty"] = True

    def mput(self, st, b, k, v):
        if vague(k):
            if st.objs[b[1]].fields["@base"][0] in ("none", "partial"):
                st.objs[b[1]].fields["@base"] = ("partial",)
                return [(st, NONE)]
            return [(st, NONE)]
        out = []
        for t, old in self.mget(st, b, k):
            self.mset(t, b, k, v, old == ABSENT)
            out.append((t, NONE))
        return out

    def mdel(self, st, b, k, default, node):
        if vague(k):
            st.objs[b[1]].fields["@dirty"] = True
            return [(st, TOP)]
        out = []
        for t, old in self.mget(st, b, k):
            if old == ABSENT:
                out.append((t, default if default is not None else Exc("KeyError", self.I.where(t, node))))
            else:
                self.mset(t, b, k, ABSENT)
                out.append((t, old))
        return out

    def copymap(self, st, b):
        o = st.objs[b[1]]
        return st.new("map", None, {k: o.fields[k] for k in ("@base", "@o")} | {"@dirty": False})

    def mapcall(self, st, m, b, args, node):
        if m == "get":
            return [(t, (args[1] if len(args) > 1 else NONE) if v == ABSENT else v) for t, v in self.mget(st, b, args[0])]
        if m == "pop":
            return self.mdel(st, b, args[0], args[1] if len(args) > 1 else None, node)
        if m == "setdefault":
            out = []
            for t, v in self.mget(st, b, args[0]):
                d = args[1] if len(args) > 1 else NONE
                out.extend((u, d) for u, _ in self.mput(t, b, args[0], d)) if v == ABSENT else out.append((t, v))
            return out
        if m in ("items", "keys", "values"):
            return [(st, ("mview", m, b, False))]
        if m == "copy":
            return [(st, self.copymap(st, b))]
        if m == "update" and len(args) == 1 and self.asmap(st, args[0]) and st.objs[args[0][1]].fields["@base"] == ("none",):
            cur = [st]
            for k, v in st.objs[args[0][1]].fields["@o"]:
                if v != ABSENT:
                    cur = [u for t in cur for u, _ in self.mput(t, b, k, v)]
            return [(t, NONE) for t in cur]
        if m == "clear":
            o = st.objs[b[1]]
            o.fields.update({"@base": ("none",), "@o": (), "@dirty": True})
            return [(st, NONE)]
        raise Undecided("dict.%s at %s" % (m, self.I.where(st, node)))

    # ------------------------------------------------------------ iteration in any order
    def isbag(self, st, v):
        if v[0] == "o" and st.objs[v[1]].items is not None:
            return any(rest(x) or x == self.node(st, "R") for x in st.objs[v[1]].items)
        return v[0] == "mview" or self.isblist(st, v) or v[0] == "o" and st.objs[v[1]].kind in ("map", "dict") and self.asmap(st, v)

    def under(self, st, v):
        """-> (container, what is yielded)"""
        return (v[2], v[1]) if v[0] == "mview" else (v, "keys")

    def mentioned(self, st):
        return sorted(set(x for x, _ in st.ghost["node"]) - {"R", "?"} - {"U2"})

    def candidates(self, st, v):
        b, _ = self.under(st, v)
        o = st.objs[b[1]]
        if o.items is not None:
            return tuple(o.items)
        o.fields["@dirty"] = False
        if "@bag" in o.fields:
            out = []
            for x in self.mentioned(st):
                c = dict(o.fields["@c"]).get(x)
                if c is None and o.fields["@bag"][0] == "adj" and not self.tracked(st, o.fields["@bag"][1], x):
                    continue
                out += [name(x)] * (1 if c is None else c)
            return tuple(out)
        base = o.fields["@base"]
        keys = [k for k, x in o.fields["@o"] if x != ABSENT]
        if base[0] in ("rows", "row"):
            keys += [name(x) for x in self.mentioned(st) if name(x) not in [k for k, _ in o.fields["@o"]]
                     and (base[0] == "rows" or self.tracked(st, base[1], x))]
        elif base[0] == "costs":
            if self.shape is None:
                raise Undecided("the form of the keys of the costs")
            ps = [pair(k)[0] for k, _ in o.fields["@o"]]
            keys += [self.key(x) for x in self.focus if x not in ps]
        return tuple(k for k in keys if not rest(k))

    def tracked(self, st, y, x):
        """is x shown as itself among the neighbours of y (or as one of the other vertices)"""
        return not self.focus or (y, x) in self.focus or self.known(st, "adj", y, x) is not None

    def key(self, ps):
        return self.mkkey(list(ps))

    def advance(self, st, v, left, node):
        """-> [(state, value | None | Exc, what is left | None at the end)]"""
        b, what = self.under(st, v)
        o = st.objs[b[1]]
        out = []
        if o.fields.get("@dirty"):
            if o.kind == "map":
                return [(st, Exc("RuntimeError", self.I.where(st, node)), left)]
            o.fields["@dirty"] = False
            for i in range(len(left)):      # an element slips by
                t = st.copy()
                out.append((t, None, left[:i] + left[i + 1:]))
        if not left:
            t = st.copy()
            out.append((t, None, None))
        for i, k in enumerate(left):
            if k in left[:i]:
                continue
            more = left[:i] + left[i + 1:]
            for t, x in self.taken(st.copy(), b, k):
                if x is None:
                    out.append((t, None, more))
                else:
                    out.extend((u, y, more) for u, y in self.yields(t, what, k, x))
        out.extend(self.others(st.copy(), b, what, left))
        return out

    def taken(self, st, b, k):
        """-> [(state, value under the key, or None if it is not there)]"""
        o = st.objs[b[1]]
        if o.items is not None:
            return [(st, k)]
        if o.kind == "map":
            return [(t, None if x == ABSENT else x) for t, x in self.mget(st, b, k)]
        return [(t, k if c else None) for t, c in self.count(st, b, k[1])]

    def yields(self, st, what, k, x):
        if what == "keys":
            return [(st, k)]
        if what == "values":
            return [(st, x)]
        return [(st, ("tup", (k, x)))]

    def others(self, st, b, what, left):
        o = st.objs[b[1]]
        if o.items is not None:
            return []
        base = o.fields["@bag"] if "@bag" in o.fields else o.fields["@base"]
        if base[0] == "none":
            return []
        if base[0] in ("costs", "partial"):
            if self.shape is None:
                raise Undecided("the form of the keys of the costs")
            k = self.key(("?", "?"))
            e = st.new("inst", self.P.require_class("GraphEdge"), {
                "source": self.node(st, "?"), "target": self.node(st, "?"), "value": TOP})
            return [(t, y, left) for t, y in self.yields(st, what, k, e)]
        if base[0] in ("adj", "row") and base[1] == "R":
            self.put(st, "adj", ("R", "R"), True)
            r = REST
            x = TRUE
            return [(t, y, left) for t, y in self.yields(st, what, r, x)]
        self.forget(st)
        if base[0] in ("adj", "row"):
            if not self.present(st, base[1]) and self.matrix:
                return []
            self.put(st, "adj", (base[1], "R"), True)
            return [(t, y, left) for t, y in self.yields(st, what, REST, TRUE)]
        if base[0] == "rows":
            return [(u, y, left) for t, x in self.mget(st, b, REST) for u, y in self.yields(t, what, REST, x)]
        return [(t, y, left) for t, y in self.yields(st, what, REST, REST)]

    def made(self, st, e, v, it):
        """remembers the length of a comprehension that keeps every element"""
        if isinstance(e, ast.DictComp) or e.generators[0].ifs:
            return
        b, _ = self.under(st, it) if it[0] in ("o", "mview") else (None, None)
        if b is not None:
            n = self.length(st, b)
            if n is not None:
                st.objs[v[1]].fields["@len"] = n

    def length(self, st, b):
        o = st.objs[b[1]]
        if "@len" in o.fields:
            return o.fields["@len"]
        if o.items is not None:
            return None if any(rest(x) or x == self.node(st, "R") for x in o.items) else num(len(o.items))
        if "@bag" in o.fields:
            if o.fields["@bag"][0] == "verts":
                return ("num", Z.add(N, Z.const(o.fields["@d"])))
            return ("deg", name(o.fields["@bag"][1])) if not o.fields["@c"] and o.fields["@d"] == 0 else None
        if o.kind == "map":
            base = o.fields["@base"]
            if base[0] == "row":
                self.measured.add("row")
            if base[0] == "row" and not o.fields["@o"]:
                return ("deg", name(base[1]))
            if base[0] == "rows" and all(x != ABSENT and self.present(st, k[1]) for k, x in o.fields["@o"]):
                return ("num", N)
            if base[0] == "costs":
                return ("ncosts",)
            if base[0] == "none":
                return num(len([1 for _, x in o.fields["@o"] if x != ABSENT]))
        return None

    # ------------------------------------------------------------ hooks of the engine
    def joined(self, parts):
        ps = []
        for p in parts:
            if p[0] == "cat":
                ps += p[1]
            elif isname(p) or p[0] == "str":
                ps.append(p)
            else:
                return ("strtop",)
        out = []
        for p in ps:
            if p[0] == "str" and out and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + p[1])
            elif p != ("str", ""):
                out.append(p)
        if len(out) == 1:
            return out[0]
        if all(p[0] == "str" for p in out):
            return ("str", "".join(p[1] for p in out))
        return ("cat", tuple(out))

    def degrees(self, v):
        """the vertices whose degrees a value is the sum of"""
        if v == num(0):
            return ()
        if v[0] == "deg":
            return (v[1][1],)
        return v[1] if v[0] == "degs" else None

    def plus(self, x, y):
        if set(x) & set(y) - {"R"}:
            return ("notdegs",)
        return ("degs", tuple(sorted(set(x) | set(y))))

    def binop(self, st, op, a, b, node):
        if any(x[0] in ("deg", "degs", "notdegs", "ncosts") for x in (a, b)):
            x, y = self.degrees(a), self.degrees(b)
            if isinstance(op, ast.Add) and x is not None and y is not None:
                return [(st, self.plus(x, y))]
            if isinstance(op, (ast.FloorDiv, ast.Div, ast.Mult, ast.Mod)) and b[0] == "num" and Z.is_const(b[1]) and b[1][1] > 1:
                return [(st, ("notdegs",))]
            raise Undecided("arithmetic at %s" % self.I.where(st, node))
        k = ("name", "cat", "str")
        if isinstance(op, ast.Add) and a[0] in k and b[0] in k:
            return [(st, self.joined([a, b]))]
        if isinstance(op, ast.Mod) and a[0] == "str":
            vs = list(b[1]) if b[0] == "tup" else [b]
            ps = a[1].split("%s")
            if len(ps) == len(vs) + 1 and "%" not in a[1].replace("%s", ""):
                parts = [("str", ps[0])]
                for x, p in zip(vs, ps[1:]):
                    parts += [x, ("str", p)]
                return [(st, self.joined(parts))]
        if isinstance(op, ast.Add) and all(x[0] == "o" and st.objs[x[1]].kind == "list" for x in (a, b)):
            raise Undecided("lists joined")
        return None

    def equal(self, st, a, b, node):
        for x, y in ((a, b), (b, a)):
            if x[0] in ("name", "cat"):
                if y[0] in ("top", "user", "strtop"):
                    return self.I.both(st)
                if vague(x) or vague(y):
                    return self.I.both(st) if y[0] == x[0] else [(st, False)]
                return [(st, x == y)]
        if self.node(st, "?") in (a, b):
            return self.I.both(st) if a[0] == b[0] else [(st, False)]
        if a[0] == b[0] == "user":
            return [(st, True)] if a == b else self.I.both(st)
        if (a[0], b[0]) in (("user", "none"), ("none", "user")):
            return [(st, False)]         # costs and data given are not None
        return None

    def truth(self, st, v):
        b = v if v[0] == "o" else None
        if b is not None and (self.isblist(st, b) or st.objs[b[1]].kind in ("map", "dict") and self.asmap(st, b)):
            n = self.length(st, b)
            if n is not None and n[0] == "num" and Z.is_const(n[1]):
                return [(st, n[1][1] != 0)]
            return self.I.both(st)
        return None

    def contains(self, st, a, b, node):
        if b[0] == "mview" and b[1] == "keys":
            b = b[2]
        if b[0] == "o":
            if self.isblist(st, b):
                if a == ANY or not isname(a):
                    return self.I.both(st)
                return [(t, c > 0) for t, c in self.count(st, b, a[1])]
            if self.asmap(st, b):
                if vague(a):
                    return self.I.both(st)
                return [(t, x != ABSENT) for t, x in self.mget(st, b, a)]
        if b[0] in ("name", "cat") and isname(a):
            if a != ANY and a in (b[1] if b[0] == "cat" else (b,)):
                return [(st, True)]
            return self.I.both(st)
        raise Undecided("membership at %s" % self.I.where(st, node))

    def getattr(self, st, b, nm, node):
        if b[0] != "o":
            if b[0] in ("name", "cat") or b[0] == "str" and nm == "format":
                return [(st, ("strm", nm, b))]
            if b[0] == "str":
                return None
            raise Undecided("attribute %s at %s" % (nm, self.I.where(st, node)))
        o = st.objs[b[1]]
        if o.cls is None and (o.kind in ("map", "dict") and self.asmap(st, b)):
            return [(st, ("mapm", nm, b))]
        if self.isblist(st, b):
            return [(st, ("listm", nm, b))]
        if nm == "__dict__":
            raise Undecided("__dict__ at %s" % self.I.where(st, node))
        if nm in ("__delattr__", "__getattr__"):
            return [(st, ("natm", nm, b))]
        return None

    def getitem(self, st, b, i, node):
        if b[0] == "o" and self.asmap(st, b):
            return [(t, Exc("KeyError", self.I.where(t, node)) if x == ABSENT else x) for t, x in self.mget(st, b, i)]
        if b[0] == "o" and st.objs[b[1]].kind == "list" and not (
                st.objs[b[1]].items is not None and i[0] == "num" and len(st.objs[b[1]].items) < 2):
            raise Undecided("list element at %s" % self.I.where(st, node))
        return None

    def setitem(self, st, b, i, v, node):
        if b[0] == "o" and self.asmap(st, b):
            return [(t, None) for t, _ in self.mput(st, b, i, v)]
        return None

    def delitem(self, st, b, i, node):
        if i[0] == "pos" and i[1] == b:
            return [(t, x if isinstance(x, Exc) else None) for t, x in self.listcall(st, "pop", b, [i], node)]
        if b[0] == "o" and self.asmap(st, b):
            return [(t, x if isinstance(x, Exc) else None) for t, x in self.mdel(st, b, i, None, node)]
        return None

    def slices(self, st, v):
        return self.isblist(st, v)

    def slice(self, st, b, lo, hi, node):
        if lo == NONE and hi == NONE:
            return [(st, self.copylist(st, b))]
        if (lo, hi) in ((num(1), NONE), (NONE, num(-1))):
            out = []                     # one element is left out, whichever
            for t, x in self.some(st, b):
                c = self.copylist(t, b)
                if x is not None:
                    self.setcount(t, c, x, self.count(t, c, x)[0][1] - 1, -1)
                out.append((t, c))
            return out
        raise Undecided("slice at %s" % self.I.where(st, node))

    def call(self, st, f, args, kw, node):
        I = self.I
        if f[0] == "listm":
            return self.listcall(st, f[1], f[2], args, node)
        if f[0] == "mapm":
            return self.mapcall(st, f[1], f[2], args, node)
        if f[0] == "strm":
            if f[1] in ("__str__",):
                return [(st, f[2])]
            if f[1] in ("startswith", "endswith") and len(args) == 1 and args[0][0] in ("name", "cat"):
                a, b = [x[1] if x[0] == "cat" else (x,) for x in (args[0], f[2])]
                if not vague(a) and (b[:len(a)] == a if f[1] == "startswith" else b[-len(a):] == a):
                    return [(st, TRUE)]
                return [(t, TRUE if r else FALSE) for t, r in I.both(st)]
            if f[1] == "format" and f[2][0] == "str" and not kw:
                ps = f[2][1].split("{}")
                if len(ps) == len(args) + 1 and not any(c in p for p in ps for c in "{}"):
                    parts = [("str", ps[0])]
                    for x, p in zip(args, ps[1:]):
                        parts += [x, ("str", p)]
                    return [(st, self.joined(parts))]
            raise Undecided("string method %s at %s" % (f[1], I.where(st, node)))
        if f[0] == "natm" and args and args[0][0] in ("name", "cat", "str"):
            b = f[2]
            if not isname(args[0]):
                if args[0][0] == "cat" or f[1] not in ("__setattr__", "__getattribute__"):
                    raise Undecided("reflective access at %s" % I.where(st, node))
                return None
            x = args[0][1]
            if f[1] == "__setattr__":
                return self.nwrite(st, b, x, args[1])
            if f[1] == "__delattr__":
                return self.ndel(st, b, x, node)
            return self.nread(st, b, x, node)
        if f[0] == "topm" and f[1] in ("format", "join"):
            raise Undecided("string method %s at %s" % (f[1], I.where(st, node)))
        if f[0] != "native":
            return None
        n = f[1]
        if n == "str" and args and args[0][0] in ("name", "cat"):
            return [(st, args[0])]
        if n in ("hasattr", "getattr", "setattr", "delattr") and len(args) > 1 and args[0][0] == "o":
            b, k = args[0], args[1]
            if k[0] == "str":
                if n == "delattr":
                    raise Undecided("delattr at %s" % I.where(st, node))
                return None
            if not isname(k):
                raise Undecided("reflective access at %s" % I.where(st, node))
            x = k[1]
            if n == "setattr":
                return self.nwrite(st, b, x, args[2])
            if n == "delattr":
                return self.ndel(st, b, x, node)
            if n == "hasattr":
                return [(t, FALSE if v == ABSENT else TRUE) for t, v in self.nget(st, b, x, node)]
            r = self.nread(st, b, x, node)
            return [(t, args[2]) if isinstance(v, Exc) and len(args) > 2 else (t, v) for t, v in r]
        if n == "len" and args[0][0] in ("o", "mview"):
            b = args[0][2] if args[0][0] == "mview" else args[0]
            if st.objs[b[1]].cls is not None:
                return None
            self.asmap(st, b)
            r = self.length(st, b)
            if r is None:
                raise Undecided("length at %s" % I.where(st, node))
            return [(st, r)]
        if n in ("list", "tuple", "sorted", "reversed", "iter") and args and (args[0][0] == "mview" or args[0][0] == "o" and self.isbag(st, args[0])):
            if kw and n != "sorted":
                raise Undecided(n)
            if args[0][0] == "mview":
                if args[0][1] == "keys" or n in ("list", "tuple", "sorted"):
                    return [(st, ("mview", args[0][1], self.copymap(st, args[0][2]), True))]
                return [(st, args[0])]
            if st.objs[args[0][1]].kind == "map":
                return [(st, ("mview", "keys", self.copymap(st, args[0]), True))]
            return [(st, self.copylist(st, args[0]))]
        if n == "dict" and len(args) == 1 and args[0][0] == "o" and self.asmap(st, args[0]):
            return [(st, self.copymap(st, args[0]))]
        if n == "sum" and len(args) == 1 and args[0][0] == "o" and st.objs[args[0][1]].items is not None:
            o = st.objs[args[0][1]]
            v = num(0)
            for x in o.items:
                x, y = self.degrees(v), self.degrees(x)
                if x is None or y is None:
                    raise Undecided("sum at %s" % I.where(st, node))
                v = self.plus(x, y)
                if v[0] != "degs":
                    break
            return [(st, v)]
        if n in ("min", "max") and len(args) > 1 and all(isname(x) for x in args):
            return [(t, x) for t, x in zip(I.alts(st, len(args)), args)]
        return None


# ---------------------------------------------------------------- contracts
class Runner:
    def __init__(self, rep, prog, cname, matrix):
        self.rep, self.P, self.cname, self.matrix = rep, prog, cname, matrix
        self.cls = prog.require_class(cname)
        self.states = self.steps = self.cases = 0
        self.funcs = set()
        self.shape = self.mkkey = None
        self.rowlen = False              # num_edges goes by the number of entries of the rows
        self.ncls = prog.require_class("AdjacencyMatrixGraphNode" if matrix else "AdjacencyListGraphNode")

    # ---- the graph before the operation
    def vertex(self, st, T, x, nm=None):
        f = {"name": name(nm or x), "data": ("user", ("data", x)), "_impl": ("str", "adjacency_matrix" if self.matrix else "adjacency_list")}
        if self.matrix:
            f["is_connected"] = NONE
        else:
            f["adjacent"] = st.new("list", None, {"@bag": ("adj", x), "@c": (), "@d": 0, "@dirty": False}) if x != "?" else TOP
        return st.new("inst", self.ncls, f)

    def graph(self, T, names, inside):
        st = State()
        st.ghost.update({"adj": (), "cost": (), "edges": (), "in": tuple(inside), "G": NONE, "rrow": None, "radj": None})
        st.ghost["node"] = tuple((x, self.vertex(st, T, x)) for x in sorted(set(names)) + ["R", "?"])
        if not self.matrix:
            st.ghost["radj"] = st.objs[T.node(st, "R")[1]].fields["adjacent"]
        f = {"vertices": st.new("list", None, {"@bag": ("verts",), "@c": (), "@d": 0, "@dirty": False}),
             "edge_weights": st.new("map", None, {"@base": ("costs",), "@o": (), "@dirty": False}),
             "_impl": ("str", "adjacency_matrix" if self.matrix else "adjacency_list")}
        if self.matrix:
            f["matrix"] = st.new("map", None, {"@base": ("rows",), "@o": (), "@dirty": False})
        for x in inside:
            f["@v:" + x] = T.node(st, x)
        st.ghost["G"] = st.new("inst", self.cls, f)
        st.zone.assume_le0(Z.sub(Z.const(len(inside)), N))
        return st

    def theory(self, focus=()):
        T = GraphTheory(self.P, self.matrix, self.shape, focus)
        T.mkkey, T.gcls = self.mkkey, self.cls
        I = Shape(self.P, T)
        I.MAXSTEPS, I.MAXLOOP = 20000, 350
        return T, I

    def learnkeys(self):
        """how add_edge forms the key under which it keeps the cost of an edge"""
        T, I = self.theory()
        T.learning = True
        st = self.graph(T, ["U", "V"], ["U", "V"])
        keys = set()
        for t, v in I.callmethod(st, st.ghost["G"], "add_edge", [name("U"), name("V"), ("user", "cost")], None):
            if isinstance(v, Exc):
                continue
            w = t.objs[t.ghost["G"][1]].fields["edge_weights"]
            if not T.asmap(t, w):
                raise Undecided("edge_weights is no dictionary")
            keys |= {k for k, x in t.objs[w[1]].fields["@o"] if x != ABSENT}
        good = sorted((k for k in keys if pair(k)[0] == ("U", "V")), key=repr)
        if len(good) != 1 or any(len(pair(k)[0]) != 2 for k in keys):
            raise Undecided("the keys of the costs are not made of the two names")
        k = good[0]
        self.shape = pair(k)[1]

        def mk(ps):
            def go(v):
                if isname(v):
                    return name(ps[0] if v[1] == "U" else ps[1])
                return (v[0], tuple(go(x) for x in v[1])) if v[0] in ("cat", "tup") else v
            return go(k)
        self.mkkey = mk

    def case(self, op, nm, names, inside, args, judge, focus, attr=False):
        self.cases += 1
        label = "%s.%s" % (self.cname, op)
        try:
            for fo in focus:
                used = tuple(x for x in ("C", "D") if any(x in p for p in fo))
                for others in [used] if used else [("C",), ()]:
                    T, I = self.theory(fo)
                    st = self.graph(T, list(names) + list(others), list(inside) + list(others))
                    a = args(st, T) if callable(args) else args
                    try:
                        for t, v in I.callmethod(st, st.ghost["G"], op, list(a), None):
                            self.states += 1
                            judge(Final(self, T, I, fo), t, v)
                    finally:
                        if op == "num_edges" and T.measured:
                            self.rowlen = True
                        self.steps += I.steps
                        self.funcs |= {f.qual for f in I.visited}
            self.rep.count("obligations")
        except GIVEUP as e:
            self.rep.undecide("%s (%s): %s" % (label, nm, e))
        except Bad as e:
            m = self.P.find_method(self.cls, op)
            self.rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), label, "%s: %s" % (nm, e))


class Final:
    """compares the graph after an operation with what the contract says"""
    def __init__(self, R, T, I, focus):
        self.R, self.T, self.I, self.focus = R, T, I, focus

    def ask(self, st, m, args):
        return self.I.callmethod(st.copy(), st.ghost["G"], m, list(args), None)

    def matches(self, st, y, x, got, exp, what):
        """got: bool; exp: True, False or None (as it was)"""
        if exp is None:
            exp = self.T.known(st, "adj", y, x)
            if exp is None:
                raise Bad("%s although nothing says so" % (what % ("" if got else "not ")))
        if got != exp:
            raise Bad(what % ("" if got else "not "))

    def contents(self, st, edges=(), costs=(), gone=(), new=()):
        """edges: ((y, x), bool) that are no longer as they were; costs: ((y, x), value or None)"""
        T = self.T
        inside = [x for x in st.ghost["in"] if x not in gone] + list(new)
        G = st.objs[st.ghost["G"][1]]
        vs = G.fields["vertices"]
        for x in T.mentioned(st):
            want = T.node(st, x) if x in inside else ABSENT
            for t, v in T.nget(st.copy(), st.ghost["G"], x, None):
                if v != want:
                    raise Bad("vertex %s %s" % (x, "is not there any more" if v == ABSENT else "is still there" if want == ABSENT else "is another object"))
            if self.R.matrix and not T.asmap(st, G.fields["matrix"]):
                raise Undecided("the rows are no dictionary")
            o = st.objs[vs[1]] if vs[0] == "o" else None
            if o is None or o.kind != "list":
                raise Undecided("vertices is no list")
            if o.items is not None:
                n = o.items.count(name(x))
            else:
                (t, n), = T.count(st.copy(), vs, x)
            if n != (1 if x in inside else 0):
                raise Bad("vertex %s is listed %s among the vertices" % (x, {0: "not at all", 1: "although removed"}.get(n, "more than once")))
        edges, costs = dict(edges), dict(costs)
        if self.R.matrix:
            self.rows(st, inside)
        for y, x in self.focus:
            p = (y, x)
            if y in inside and x in inside:
                e = edges.get((y, x))
                for t, v in self.ask(st, "is_adjacent", [name(y), name(x)]):
                    if isinstance(v, Exc):
                        raise Bad("afterwards is_adjacent(%s, %s) fails with %s at %s" % (y, x, v.name, v.where))
                    if v[0] != "bool":
                        raise Undecided("the answer of is_adjacent")
                    self.matches(t, y, x, v[1], e, "afterwards %s is %%sadjacent to %s" % (x, y))
                self.neighbours(st, y, inside, edges)
                for t, v in self.ask(st, "get_edge", [name(p[0]), name(p[1])]):
                    self.isedge(t, p, v, costs.get(p, "same"), "afterwards ")

    def rows(self, st, inside):
        T, seen = self.T, {}
        for y in inside:
            (t, row), = T.mget(st, st.objs[st.ghost["G"][1]].fields["matrix"], name(y))
            if row == ABSENT or not T.asmap(t, row):
                continue
            if row in seen:
                raise Bad("vertices %s and %s share one row" % (seen[row], y))
            seen[row] = y
            if self.R.rowlen:
                for k, v in t.objs[row[1]].fields["@o"]:
                    if v in (FALSE, NONE):
                        raise Bad("the row of %s keeps an entry for %s that num_edges counts as an edge" % (y, k[1]))

    def neighbours(self, st, y, inside, edges, prefix="afterwards "):
        for t, v in self.ask(st, "neighbors", [name(y)]):
            self.listing(t, y, v, inside, edges, prefix)

    def listing(self, t, y, v, inside, edges, prefix):
        T = self.T
        if isinstance(v, Exc):
            raise Bad("%sneighbors(%s) fails with %s at %s" % (prefix, y, v.name, v.where))
        if v[0] != "o" or t.objs[v[1]].items is None:
            raise Undecided("the result of neighbors is no list that is followed")
        items = t.objs[v[1]].items
        for x in T.mentioned(t):
            if not T.tracked(t, y, x) and T.node(t, x) not in items:
                continue
            n = items.count(T.node(t, x))
            if n > 1:
                raise Bad("%sneighbors(%s) lists %s more than once" % (prefix, y, x))
            if x in inside:
                self.matches(t, y, x, n == 1, edges.get((y, x)), "%s%s is %%slisted among the neighbors of %s" % (prefix, x, y))
            elif n:
                raise Bad("%sneighbors(%s) lists %s, which is no vertex" % (prefix, y, x))
        for i in items:
            if i[0] != "o" or T.nodename(t, i) is None:
                raise Bad("%sneighbors(%s) lists something that is no vertex of the graph" % (prefix, y))

    def isedge(self, st, p, v, want, prefix=""):
        T = self.T
        what = "%sget_edge(%s, %s)" % (prefix, p[0], p[1])
        if isinstance(v, Exc):
            raise Bad("%s fails with %s at %s" % (what, v.name, v.where))
        if v[0] not in ("o", "none"):
            raise Undecided("the answer of get_edge")
        if want == "same":
            k = T.known(st, "cost", *p)
            if k is None:
                raise Bad("%s is %s whatever it was before" % (what, "None" if v == NONE else "an edge"))
            want = ("user", ("cost",) + p) if k else None
        if want is None:
            if v != NONE:
                raise Bad("%s is an edge, expected none" % what)
            return
        if v == NONE:
            raise Bad("%s is None although the edge has a cost" % what)
        f = st.objs[v[1]].fields
        for end, x in (("source", p[0]), ("target", p[1])):
            if f.get(end) != T.node(st, x):
                raise Bad("the %s of the edge from %s to %s is %s" % (end, p[0], p[1], T.nodename(st, f.get(end, NONE)) or "no vertex of the graph"))
        if f.get("value") != want:
            raise Bad("%s has the cost %s instead of %s" % (what, f.get("value"), want))


def fine(v):
    if isinstance(v, Exc):
        raise Bad("%s at %s although the arguments are valid" % (v.name, v.where))


def refused(v, what):
    if not isinstance(v, Exc):
        raise Bad(what)


def contracts(R):
    C1 = ("user", "cost")
    OTHER = ("C", "D"), ("C", "C")

    def total(F, st, val):
        fine(val)
        d = F.T.degrees(val)
        if val[0] == "ncosts":
            raise Bad("the answer is the number of costs, not of edges")
        if val[0] == "notdegs" or val[0] == "num" and d is None:
            raise Bad("the answer is not the number of edges")
        if d is None:
            raise Undecided("the answer is not a sum that is followed")
        if set(d) - {"R"} != set(st.ghost["in"]):
            raise Bad("the answer does not count the edges of every vertex")
        F.contents(st)
    R.case("num_edges", "every graph", [], [], [], total, [(), (("C", "D"),)])

    for nm, u, v, names in (("two vertices", "U", "V", ["U", "V"]), ("one vertex twice", "U", "U", ["U"])):
        foc = [(p,) for p in dict.fromkeys([(u, v), (v, u), ("C", u), (u, "C"), ("C", v), (v, "C")] + list(OTHER))]
        ends = [name(u), name(v)]

        def after(st, v_, **k):
            raise NotImplementedError

        def holds(**k):
            def j(F, st, val):
                fine(val)
                F.contents(st, **k)
            return j
        R.case("add_edge", nm + ", a cost", names, names, ends + [C1], holds(edges=[((u, v), True)], costs=[((u, v), C1)]), foc)
        R.case("add_edge", nm + ", no cost", names, names, ends, holds(edges=[((u, v), True)]), foc)

        def removed(F, st, val):
            was = F.T.known(st, "adj", u, v)
            if isinstance(val, Exc):
                if was is not False:
                    raise Bad("%s at %s although the edge is there" % (val.name, val.where))
                F.contents(st)
            else:
                F.contents(st, edges=[((u, v), False)], costs=[((u, v), None)])
        R.case("remove_edge", nm, names, names, ends, removed, foc)

        def adjacent(F, st, val):
            fine(val)
            if val[0] != "bool":
                raise Undecided("the answer")
            F.matches(st, u, v, val[1], None, "the answer is %strue")
            F.contents(st)
        two = [((u, v),), (("C", "D"),)]
        R.case("is_adjacent", nm, names, names, ends, adjacent, two)

        def edge(F, st, val):
            F.isedge(st, (u, v), val, "same")
            F.contents(st)
        R.case("get_edge", nm, names, names, ends, edge, two)
    for nm, u, v, names, inside in (("the source is missing", "U", "V", ["U", "V"], ["V"]), ("the target is missing", "U", "V", ["U", "V"], ["U"]),
                                    ("both are missing", "U", "V", ["U", "V"], [])):
        ends = [name(u), name(v)]

        def no(F, st, val):
            refused(val, "an edge is added although a vertex is missing")
            if val.name != "ValueError":
                raise Bad("fails with %s at %s" % (val.name, val.where))
            F.contents(st)
        foc = [(("C", "D"),)]
        R.case("add_edge", nm, names, inside, ends + [C1], no, foc)
        R.case("add_edge", nm + ", no cost", names, inside, ends, no, foc)

        def same(F, st, val):
            F.contents(st)
        R.case("remove_edge", nm, names, inside, ends, same, foc)

        def isnot(F, st, val):
            if not isinstance(val, Exc) and val != FALSE:
                raise Bad("the answer is not False")
            F.contents(st)
        R.case("is_adjacent", nm, names, inside, ends, isnot, foc)

        def none(F, st, val):
            F.isedge(st, (u, v), val, None)
            F.contents(st)
        R.case("get_edge", nm, names, inside, ends, none, foc)

    def listed(F, st, val):
        fine(val)
        F.listing(st, "U", val, st.ghost["in"], {}, "")
        F.contents(st)
    R.case("neighbors", "every vertex", ["U"], ["U"], [name("U")], listed, [(("U", "C"),), (("U", "U"),), (("C", "D"),)])

    def number(F, st, val):
        fine(val)
        if val != ("num", N):
            raise Bad("the answer is not the number of vertices")
        F.contents(st)
    R.case("num_vertices", "every graph", [], [], [], number, [(), (("C", "D"),)])

    if R.matrix:
        return
    foc = [(p,) for p in (("C", "D"), ("C", "C"))]

    def gone(F, st, val):
        fine(val)
        F.contents(st, gone=["U"])
        for x in F.T.mentioned(st):
            if x != "U" and x in st.ghost["in"]:
                for t, v in F.ask(st, "is_adjacent", [name(x), name("U")]):
                    if v == TRUE:
                        raise Bad("the removed vertex is still adjacent to another one")
        for p in (("U", "U"), ("U", "C"), ("C", "U")):
            if p in F.focus:
                for t, v in F.ask(st, "get_edge", [name(p[0]), name(p[1])]):
                    F.isedge(t, p, v, None, "afterwards ")
    R.case("remove_vertex", "a vertex of the graph", ["U"], ["U"], [name("U")], gone,
           foc + [(p,) for p in (("U", "C"), ("C", "U"), ("U", "U"))])

    def still(F, st, val):
        F.contents(st)
    R.case("remove_vertex", "no vertex of the graph", ["U"], [], [name("U")], still, foc)

    def added(F, st, val):
        fine(val)
        F.contents(st, new=["U"])
    R.case("add_vertex", "a new vertex", ["U"], [], lambda st, T: [T.node(st, "U")], added, foc)

    def second(st, T):
        n = R.vertex(st, T, "U2", "U")
        st.ghost["node"] += (("U2", n),)
        return [n]

    def kept(F, st, val):
        fine(val)
        F.contents(st)
    R.case("add_vertex", "a name that is taken", ["U"], ["U"], second, kept, foc)


def constructors(R):
    for k in range(4):
        nm = "%d vertices" % k
        R.cases += 1
        try:
            T, I = R.theory()
            names = ["A%d" % i for i in range(k)]
            st = State()
            st.ghost.update({"adj": (), "cost": (), "edges": (), "in": tuple(names), "G": NONE, "rrow": None, "radj": None})
            st.ghost["node"] = tuple((x, R.vertex(st, T, x)) for x in names + ["R", "?"])
            if not R.matrix:
                st.ghost["radj"] = st.objs[T.node(st, "R")[1]].fields["adjacent"]
            for t, v in I.call(st, ("cls", R.cls), [T.node(st, x) for x in names], {}, None):
                R.states += 1
                fine(v)
                if v[0] != "o":
                    raise Undecided("the constructor returns no object that is followed")
                t.ghost["G"] = v
                for y in names:
                    for x in names:
                        if R.matrix:
                            T.put(t, "adj", (y, x), False)
                F = Final(R, T, I, [(y, x) for y in names for x in names])
                for p in F.focus:
                    T.put(t, "cost", p, False)
                F.contents(t)
            R.rep.count("obligations")
            R.steps += I.steps
            R.funcs |= {f.qual for f in I.visited}
        except GIVEUP as e:
            R.rep.undecide("%s.__new__ (%s): %s" % (R.cname, nm, e))
        except Bad as e:
            m = R.P.find_method(R.cls, "__new__")
            R.rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), "%s.__new__" % R.cname, "%s: %s" % (nm, e))


def vertices(R):
    """a new vertex has its name and data and a list of neighbours of its own"""
    R.cases += 1
    m = R.P.find_method(R.ncls, "__new__")
    cls = R.ncls.name if hasattr(R.ncls, "name") else R.ncls
    try:
        T, I = R.theory()
        st = State()
        st.ghost.update({"adj": (), "cost": (), "edges": (), "in": (), "G": NONE, "rrow": None, "radj": None})
        st.ghost["node"] = tuple((x, R.vertex(st, T, x)) for x in ("R", "?"))
        D = ("user", "data")
        for t, v in I.call(st, ("cls", R.ncls), [name("X"), D], {}, None):
            fine(v)
            for u, w in I.call(t, ("cls", R.ncls), [name("Y"), D], {}, None):
                R.states += 1
                fine(w)
                if v[0] != "o" or w[0] != "o":
                    raise Undecided("the constructor returns no object that is followed")
                a, b = u.objs[v[1]].fields, u.objs[w[1]].fields
                for f, x in ((a, "X"), (b, "Y")):
                    if f.get("name") != name(x):
                        raise Bad("the vertex does not have the name it is given")
                    if f.get("data") != D:
                        raise Bad("the vertex does not have the data it is given")
                    if not R.matrix:
                        l = f.get("adjacent", NONE)
                        if l[0] != "o" or u.objs[l[1]].kind != "list" or u.objs[l[1]].items is None:
                            raise Undecided("the neighbours of a new vertex")
                        if u.objs[l[1]].items:
                            raise Bad("a new vertex has neighbours nobody gave it")
                if not R.matrix and a["adjacent"] == b["adjacent"]:
                    raise Bad("two new vertices share one list of neighbours")
        if not R.matrix:
            st.ghost["node"] += (("A0", R.vertex(st, T, "A0")),)
            a = T.node(st, "A0")
            given = st.new("list", None, None, [a])
            for t, v in I.call(st, ("cls", R.ncls), [name("X"), D, given], {}, None):
                R.states += 1
                fine(v)
                l = t.objs[v[1]].fields.get("adjacent", NONE)
                if l[0] != "o" or t.objs[l[1]].kind != "list" or t.objs[l[1]].items is None:
                    raise Undecided("the neighbours of a new vertex")
                if t.objs[l[1]].items != [name("A0")] or any(x == ABSENT for _, x in T.nget(t.copy(), v, "A0", None)):
                    raise Bad("the names of a new vertex's neighbours are not those of the vertices given")
                if l == given:
                    raise Bad("a new vertex shares the list given by the caller")
        R.rep.count("obligations")
        R.steps += I.steps
        R.funcs |= {f.qual for f in I.visited}
    except GIVEUP as e:
        R.rep.undecide("%s: %s" % (cls, e))
    except Bad as e:
        R.rep.violate("contents", "%s:%d" % (m.module.path, m.node.lineno), "%s.__new__" % cls, str(e))


def check_graphs(rep, tier):
    prog = Program()
    rep.rule("after an operation the graph's own queries answer, for the vertices given and for any other two, exactly what the contract of the operation says")
    for cname, matrix in (("AdjacencyList", False), ("AdjacencyMatrix", True)):
        R = Runner(rep, prog, cname, matrix)
        try:
            R.learnkeys()
        except GIVEUP as e:
            rep.undecide("%s: %s" % (cname, e))
        contracts(R)
        constructors(R)
        vertices(R)
        rep.count("final_states", R.states)
        rep.count("cases", R.cases)
        rep.count("abstract_steps", R.steps)
        rep.count("functions_interpreted", len(R.funcs))
        rep.sample(sorted(R.funcs))
    return rep
