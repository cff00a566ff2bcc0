"""Binary search trees kept in an array: links, order, sizes (shape analysis).

A slot is a place of the tree's array; an index is a pointer to a slot.  The tree before an
operation is an arbitrary well formed tree; slots are materialised when their links are read
(a child or parent is None, a slot already known, or a new one).  Shrinking the array is a
nondeterministic event of append/delete after which every index a variable still holds is out
of date.  At loop heads a state whose links agree and whose in-order sequence is what it should
be becomes the new starting point, and slots nothing refers to are forgotten."""
import ast

from . import zone as Z
from .program import Program
from .shape import Shape, Theory, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE, TOP, num

SIDES = (("left", "@L", "L"), ("right", "@R", "R"))
BF = {"left": "@L", "right": "@R", "parent": "@P"}
K, D = ("key", "K"), ("user", "D")


class Bad(Exception):
    pass


def ref(i):
    return ("o", i)


class TreeTheory(Theory):
    memo = True

    def __init__(self, cls, nodecls, stat):
        self.cls, self.nodecls, self.stat = cls, nodecls, stat
        self.summaries = True

    # ------------------------------------------------------------------ set up
    def start(self, prog, empty):
        st = State()
        r = self.newslot(st)
        st.objs[r].fields["@P"] = NONE
        if empty:
            f = st.objs[r].fields
            f["@L"] = f["@R"] = f["@bk"] = f["@bd"] = NONE
        arr = st.new("tarr")
        w = st.new("inst", self.cls, {"root_idx": ("idx", ref(r), "ok"), "tree": arr, "size": ("num", Z.sym("Z")),
                                      "comparator": ("usercomp",), "is_order_statistic": ("bool", self.stat)})
        st.ghost.update(w=w, arr=arr, R0=ref(r), K=("str", "?"), todo=NONE, empty=("bool", empty))
        return st, w

    def newslot(self, st, init=True):
        i = st.new("slot")[1]
        n = st.new("node", self.nodecls, {"@slot": ref(i)})
        st.objs[i].fields.update({"@node": n, "@live": TRUE, "@init": ("bool", init)})
        return i

    # ------------------------------------------------------------------ small accessors
    def slots(self, st, among=None):
        return [i for i, o in st.objs.items() if o.kind == "slot" and (among is None or i in among)]

    def node(self, st, i):
        v = st.objs[i].fields.get("@node")
        return None if v is None or v == NONE else st.objs[v[1]]

    def live(self, st, i):
        return st.objs[i].fields["@live"] == TRUE

    def init(self, st, i):
        return st.objs[i].fields["@init"] == TRUE

    def bkey(self, st, i):
        return st.objs[i].fields.get("@bk", ("okey", ref(i)))

    def bdata(self, st, i):
        return st.objs[i].fields.get("@bd", ("odata", ref(i)))

    def key(self, st, i):
        return self.node(st, i).fields.get("key", self.bkey(st, i))

    def data(self, st, i):
        return self.node(st, i).fields.get("data", self.bdata(st, i))

    def iskey(self, st, v, i):
        """does key value v denote the key slot i holds now"""
        k = self.key(st, i)
        return k == v or (v == K and st.ghost["K"] == ref(i) and k == ("okey", ref(i))) or \
            (k == K and v[0] == "okey" and st.ghost["K"] == v[1])

    def roots(self, st):
        out = []
        for i in self.slots(st):
            o = st.objs[i]
            n = self.node(st, i)
            if o.fields.get("@dirty") == TRUE or (not self.live(st, i) and self.init(st, i)) or (self.live(st, i) and not self.init(st, i)):
                out.append(i)
            elif n is not None and n.mod:
                out.append(i)
        return out

    # ------------------------------------------------------------------ what is known about positions
    def chain(self, st, i):
        out, side = [], []
        while True:
            p = st.objs[i].fields.get("@P")
            if p is None or p == NONE or len(out) > 60:
                return out
            o = st.objs[p[1]].fields
            out.append((p[1], "L" if o.get("@L") == ref(i) else "R" if o.get("@R") == ref(i) else "?"))
            i = p[1]

    @staticmethod
    def subs(st):
        """("sub", a, side, b): b lies in the subtree of a on that side (and what spine facts imply)"""
        out = []
        for x in st.facts:
            if x[0] == "sub":
                out.append(x)
            elif x[0] in ("ls", "rs"):
                out.append(("sub", x[1], ("s", "R" if x[0] == "ls" else "L"), x[2]))
        return out

    def above(self, st, i):
        """{known strict ancestor: side}"""
        out = {}
        work = [i]
        seen = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for a, s in self.chain(st, x):
                if out.get(a, "?") == "?":
                    out[a] = s
                work.append(a)
            for f in self.subs(st):
                if f[3] == ref(x):
                    a = f[1][1]
                    if out.get(a, "?") == "?":
                        out[a] = f[2][1]
                    work.append(a)
        r = st.ghost["R0"][1]
        if r != i and r not in out:
            out[r] = "?"
        return out

    def compatible(self, st, p, side, c):
        """may base slot c be the `side` child of base slot p"""
        if p == c or "@P" in st.objs[c].fields:
            return False
        f = "@" + side
        if f in st.objs[p].fields:
            return False
        up = self.above(st, p)
        if c in up:
            return False
        for x in list(st.facts) + self.subs(st):
            if x[0] == "sub" and x[3] == ref(c):
                a, e = x[1][1], x[2][1]
                if a == p:
                    if e not in (side, "?"):
                        return False
                elif a in up:
                    if up[a] != "?" and e != "?" and up[a] != e:
                        return False
                elif p in self.above(st, a):
                    return False
            if x[0] == "sub" and x[1] == ref(p) and x[2][1] == side and x[3] != ref(c):
                if x[3][1] in self.above(st, c):
                    return False
            if x[0] in ("ls", "rs") and x[2] == ref(c):
                turn, spine = ("R", "L") if x[0] == "ls" else ("L", "R")
                if p == x[1][1]:
                    if side != turn:
                        return False
                elif side != spine:
                    return False
        return True

    def linkup(self, st, p, side, c):
        """records that c is the `side` child of p in the starting tree"""
        st.objs[p].fields["@" + side] = ref(c)
        st.objs[c].fields["@P"] = ref(p)
        add = {("ls" if side == "R" else "rs", ref(p), ref(c))}
        for x in list(st.facts) + self.subs(st):
            if x[0] == "ls" and x[2] == ref(p) and side == "L" or x[0] == "rs" and x[2] == ref(p) and side == "R":
                add.add((x[0], x[1], ref(c)))
            if x[0] == "ls" and x[2] == ref(c) and side == "L" and x[1] != ref(p) or x[0] == "rs" and x[2] == ref(c) and side == "R" and x[1] != ref(p):
                add.add((x[0], x[1], ref(p)))
                add.add(("sub", x[1], ("s", "R" if x[0] == "ls" else "L"), ref(p)))
            if x[0] == "sub" and x[1] == ref(p) and x[2][1] == side and x[3] != ref(c):
                add.add(("sub", ref(c), ("s", "?"), x[3]))
            if x[0] == "sub" and x[3] == ref(c) and x[1] != ref(p):
                add.add(("sub", x[1], x[2], ref(p)))
        st.facts = st.facts | add

    def base(self, st, i, f):
        """link f ('@L','@R','@P') of slot i in the starting tree -> [(state, ref|NONE)]"""
        o = st.objs[i].fields
        if f in o:
            return [(st, o[f])]
        if not self.init(st, i):
            raise Undecided("link of a slot that is not part of the tree")
        out = []
        reach = self.I.reach(st)
        cand = [c for c in self.slots(st, reach) if c != i and self.init(st, c)]
        if f == "@P":
            spine = [x for x in st.facts if x[0] in ("ls", "rs") and x[2] == ref(i)]
            for c in cand:
                for side in "LR":
                    if self.compatible(st, c, side, i):
                        t = st.copy()
                        self.linkup(t, c, side, i)
                        out.append((t, ref(c)))
            for side in "LR":
                if any(side != ("L" if x[0] == "ls" else "R") for x in spine):
                    continue
                t = st.copy()
                p = self.newslot(t)
                self.linkup(t, p, side, i)
                out.append((t, ref(p)))
            return out
        side = f[1]
        if not any(x[1] == ref(i) and x[2][1] == side for x in self.subs(st)):
            t = st.copy()
            t.objs[i].fields[f] = NONE
            out.append((t, NONE))
        for c in cand:
            if self.compatible(st, i, side, c):
                t = st.copy()
                self.linkup(t, i, side, c)
                out.append((t, ref(c)))
        t = st.copy()
        c = self.newslot(t)
        self.linkup(t, i, side, c)
        out.append((t, ref(c)))
        return out

    # ------------------------------------------------------------------ hooks
    def getattr(self, st, b, name, node):
        o = st.objs[b[1]]
        if o.kind == "tarr":
            if name == "_last_pos_filled":
                return [(st, ("lastpos",))]
            if name in ("append", "delete"):
                return [(st, ("tarrm", name))]
            if name == "_num":
                return [(st, TOP)]
            raise Undecided("attribute %s of the tree's array at %s" % (name, self.I.where(st, node)))
        if o.kind != "node" or name in o.fields:
            return None
        s = o.fields["@slot"][1]
        if name in BF:
            return [(t, NONE if v == NONE else ("idx", v, "ok")) for t, v in self.base(st, s, BF[name])]
        if name == "key":
            return [(st, self.bkey(st, s))]
        if name == "data":
            return [(st, self.bdata(st, s))]
        if name == "size":
            return [(st, ("sz", ((ref(s), 1),), 0) if self.stat else TOP)]
        return self.nodeattr(st, s, name, node)

    def nodeattr(self, st, s, name, node):
        if name == "is_root":
            return [(st, TRUE)] if st.ghost["R0"] == ref(s) else [(t, ("bool", x)) for t, x in self.I.both(st)]
        if name in ("priority", "height", "color") and not self.declares(self.node(st, s).cls, name):
            return [(st, Exc("AttributeError (%s of a %s)" % (name, self.node(st, s).cls.name), self.I.where(st, node)))]
        if name == "priority":
            return [(st, ("prio", ref(s)))]
        if name in ("height", "color"):
            return [(st, TOP)]
        return None

    def declares(self, cls, name):
        for c in self.I.P.mro(cls):
            for b in c.node.body:
                if isinstance(b, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "__slots__" for x in b.targets):
                    if any(isinstance(x, ast.Constant) and x.value == name for x in ast.walk(b.value)):
                        return True
        return False

    def slot_of(self, st, i, node):
        """index value -> slot id, or Exc"""
        w = self.I.where(st, node)
        if i[0] == "idx":
            if i[2] != "ok":
                return Exc("an index from before the array was rearranged", w)
            return i[1][1]
        if i[0] == "none":
            return Exc("TypeError (None used as an index)", w)
        raise Undecided("index %s at %s" % (i[0], w))

    def getitem(self, st, b, i, node):
        if b[0] == "remap":
            for s in self.slots(st, self.I.reach(st)):
                if self.live(st, s) and self.node(st, s) is not None and self.iskey(st, i, s):
                    return [(st, ("idx", ref(s), "ok"))]
            if i[0] == "okey" and self.live(st, i[1][1]) and self.key(st, i[1][1]) == i:
                return [(st, ("idx", i[1], "ok"))]
            return [(st, Exc("KeyError (a key that is no longer in the tree)", self.I.where(st, node)))]
        if b[0] == "o" and st.objs[b[1]].kind == "tarr":
            s = self.slot_of(st, i, node)
            if isinstance(s, Exc):
                return [(st, s)]
            o = st.objs[s].fields
            if not self.live(st, s):
                if o["@live"] == FALSE:
                    return [(st, NONE)]
                return [(st, Exc("IndexError", self.I.where(st, node)))]
            return [(st, o["@node"])]
        return None

    def setitem(self, st, b, i, v, node):
        if b[0] == "o" and st.objs[b[1]].kind == "tarr":
            s = self.slot_of(st, i, node)
            if isinstance(s, Exc):
                return [(st, s)]
            if v[0] != "o" or st.objs[v[1]].cls is None or not self.live(st, s):
                raise Undecided("store into the tree's array at %s" % self.I.where(st, node))
            st.objs[s].fields["@node"] = v
            st.objs[v[1]].fields["@slot"] = ref(s)
            return [(st, None)]
        return None

    def binop(self, st, op, a, b, node):
        if a[0] == "lastpos" and isinstance(op, ast.Add) and b == num(1) or b[0] == "lastpos" and isinstance(op, ast.Add) and a == num(1):
            n = st.ghost.get("next")
            if n is None:
                n = st.new("slot")
                st.objs[n[1]].fields.update({"@live": ("str", "pending"), "@init": FALSE})
                st.ghost["next"] = n
            return [(st, ("idx", n, "ok"))]
        if "lastpos" in (a[0], b[0]) or "idx" in (a[0], b[0]):
            raise Undecided("index arithmetic at %s" % self.I.where(st, node))
        if "sz" in (a[0], b[0]):
            x, y = self.sz(a), self.sz(b)
            if x is not None and y is not None and isinstance(op, (ast.Add, ast.Sub)):
                return [(st, self.szadd(x, y, 1 if isinstance(op, ast.Add) else -1))]
            return [(st, TOP)]
        return None

    @staticmethod
    def sz(v):
        if v[0] == "sz":
            return v
        if v[0] == "num" and Z.is_const(v[1]):
            return ("sz", (), v[1][1])
        return None

    @staticmethod
    def szadd(a, b, k=1):
        d = dict(a[1])
        for s, c in b[1]:
            d[s] = d.get(s, 0) + k * c
        return ("sz", tuple(sorted((s, c) for s, c in d.items() if c)), a[2] + k * b[2])

    def truth(self, st, v):
        o = st.objs[v[1]]
        return [(st, True)] if o.kind in ("node", "slot", "tarr") else None

    def equal(self, st, a, b, node):
        ka, kb = a[0], b[0]
        if "remap" in (ka, kb):
            return [(st, ka == kb)]
        if "idx" in (ka, kb):
            if ka == kb:
                if a[2] != b[2]:
                    raise Undecided("comparison of an index from before the array was rearranged at %s" % self.I.where(st, node))
                return [(st, a[1] == b[1])]
            if NONE in (a, b):
                return [(st, False)]
            return self.I.both(st)
        keys = ("okey", "key")
        if ka in keys and kb in keys:
            return self.keyeq(st, a, b)
        if ka in keys + ("odata", "prio", "sz") or kb in keys + ("odata", "prio", "sz"):
            if NONE in (a, b) and (ka in keys or kb in keys):
                return [(st, False)]
            if ka == kb and a == b:
                return [(st, True)]
            return self.I.both(st)
        return None

    def keyeq(self, st, a, b):
        if a == b:
            return [(st, True)]
        if a[0] == "okey" and b[0] == "okey":
            return [(st, False)]
        o = a if a[0] == "okey" else b
        if a[0] == b[0] or K not in (a, b):
            raise Undecided("comparison of keys")
        g = st.ghost["K"]
        if g == ("str", "absent"):
            return [(st, False)]
        if g[0] == "o":
            return [(st, g == o[1])]
        f = ("ne", o[1])
        if f in st.facts:
            return [(st, False)]
        x, y = self.I.alts(st, 2)
        x.ghost["K"] = o[1]
        y.facts = y.facts | {f}
        return [(x, True), (y, False)]

    def order(self, st, op, a, b, node):
        if "sz" in (a[0], b[0]) or "prio" in (a[0], b[0]):
            return self.I.both(st)
        if a[0] in ("okey", "key") and b[0] in ("okey", "key"):
            return self.I.both(st)
        return None

    def call(self, st, f, args, kw, node):
        if f == ("usercomp",):
            return self.compare(st, args[0], args[1], node)
        if f[0] == "tarrm":
            return getattr(self, "arr_" + f[1])(st, args, node)
        if f[0] == "bound" and f[1].name == "search" and f[2] == st.ghost["w"] and self.summaries:
            return self.search(st, args, kw, node)
        if f[0] == "native" and f[1] == "isinstance":
            return None
        return None

    # ------------------------------------------------------------------ comparator
    def rootslot(self, st):
        v = st.objs[st.ghost["w"][1]].fields["root_idx"]
        return v[1][1] if v[0] == "idx" else None

    def holder(self, st, k):
        if k[0] == "okey":
            s = k[1][1]
            return s if s in st.objs and self.live(st, s) and self.key(st, s) == k else None
        return None

    def compare(self, st, a, b, node):
        if a == NONE or b == NONE:
            return [(st, Exc("TypeError (comparison with the key of an empty root)", self.I.where(st, node)))]
        out = []
        for k, o, mirrored in ((a, b, False), (b, a, True)):
            if k == K and o[0] == "okey":
                n = self.holder(st, o)
                for t, r in self.order_of_K(st, o):
                    if n is not None:
                        g = t.ghost.get("G")
                        if n == self.rootslot(t) and not (g is not None and g[0] == "at"):
                            g = ("at", ref(n))
                        elif g is not None and g[0] == "side" and t.objs[g[1][1]].fields.get("@" + g[2][1]) == ref(n):
                            g = ("at", ref(n))
                        if g == ("at", ref(n)):
                            t.ghost["G"] = ("side", ref(n), ("s", "L" if r else "R"))
                    out.append((t, TRUE if r != mirrored else FALSE))
                return out
        return [(t, TRUE if r else FALSE) for t, r in self.I.both(st)]

    def order_of_K(self, st, o):
        """-> [(state, K before o)]"""
        for r in (True, False):
            if ("Klt", o, ("bool", r)) in st.facts:
                return [(st, r)]
        out = []
        for t, r in self.I.both(st):
            t.facts = t.facts | {("Klt", o, ("bool", r))}
            out.append((t, r))
        return out

    # ------------------------------------------------------------------ the array
    def stale(self, st, keep=()):
        """every index a variable holds is out of date"""
        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "idx":
                    return ("idx", v[1], "old")
                if v[0] in ("num", "str", "o"):
                    return v
                return tuple(val(x) for x in v)
            return v
        for f in st.frames:
            f.vars = {k: val(v) for k, v in f.vars.items()}
        st.tmp = [val(v) for v in st.tmp]
        for o in st.objs.values():
            if o.kind in ("slot", "node"):
                continue
            if o.cls is not None and "@slot" in o.fields:
                continue
            o.fields = {k: val(v) for k, v in o.fields.items()}
            if o.items is not None:
                o.items = [val(v) for v in o.items]

    def rearrange(self, st, node):
        """-> None if shrinking works, else Exc: every link of every element must lead to an element"""
        w = self.I.where(st, node)
        reach = self.I.reach(st)
        seen = []
        for s in self.slots(st, reach):
            if not self.live(st, s):
                continue
            n = self.node(st, s)
            for x in seen:
                if self.iskey(st, self.key(st, s), x):
                    return Exc("two elements hold the same key while the array is rearranged", w)
            seen.append(s)
            for f in BF:
                v = n.fields.get(f)
                if v is None:
                    v = st.objs[s].fields.get(BF[f])
                    v = ("idx", v, "ok") if v is not None and v != NONE else NONE
                if v[0] == "idx" and (v[2] != "ok" or not self.live(st, v[1][1])):
                    return Exc("%s of an element leads nowhere while the array is rearranged" % f, w)
        self.stale(st)
        return None

    def arr_delete(self, st, args, node):
        s = self.slot_of(st, args[0], node)
        if isinstance(s, Exc):
            return [(st, s)]
        if self.live(st, s):
            st.objs[s].fields["@live"] = FALSE
            st.ghost.pop("next", None)
        else:
            return [(st, NONE)]
        a, b = self.I.alts(st, 2)
        e = self.rearrange(b, node)
        return [(a, NONE), (b, e if e is not None else ("remap",))]

    def arr_append(self, st, args, node):
        v = args[0]
        if v[0] != "o" or st.objs[v[1]].cls is None:
            raise Undecided("append at %s" % self.I.where(st, node))
        n = st.ghost.pop("next", None)
        if n is None:
            n = st.new("slot")
        st.objs[n[1]].fields.update({"@live": TRUE, "@init": FALSE, "@node": v})
        st.objs[v[1]].fields["@slot"] = n
        a, b = self.I.alts(st, 2)
        e = self.rearrange(b, node)
        return [(a, NONE), (b, e if e is not None else ("remap",))]

    # ------------------------------------------------------------------ contract of search
    def search(self, st, args, kw, node):
        k = args[0] if args else kw.get("key")
        want = kw.get("parent", FALSE) == TRUE
        if k is None or k[0] not in ("key", "okey"):
            raise Undecided("search for an unknown key at %s" % self.I.where(st, node))
        r = st.objs[st.ghost["w"][1]].fields["root_idx"]
        s = self.slot_of(st, r, node)
        if isinstance(s, Exc):
            return [(st, s)]
        if self.key(st, s) == NONE:
            return [(st, ("tup", (NONE, NONE)) if want else NONE)]
        reach = self.I.reach(st)
        found = [i for i in self.slots(st, reach) if self.live(st, i) and self.iskey(st, k, i)]
        if k[0] == "okey" and not found:
            raise Undecided("search for a key that moved at %s" % self.I.where(st, node))
        cases = []
        if found:
            cases = [(st, found[0])]
        elif st.ghost["K"] == ("str", "?"):
            t = st.copy()
            t.ghost["K"] = ("str", "absent")
            cases.append((t, None))
            for i in [i for i in self.slots(st, reach) if self.init(st, i)]:
                if ("ne", ref(i)) in st.facts:
                    continue
                t = st.copy()
                t.ghost["K"] = ref(i)
                cases.append((t, i))
            t = st.copy()
            i = self.newslot(t)
            t.ghost["K"] = ref(i)
            cases.append((t, i))
        else:
            cases = [(st, None)]
        out = []
        for t, i in cases:
            if i is None:
                if not want:
                    out.append((t, NONE))
                else:
                    for u, p in self.absent_place(t):
                        out.append((u, ("tup", (NONE, ("idx", ref(p), "ok")))))
                continue
            t.tmp.append(("idx", ref(i), "ok"))
            if want:
                for u, p in self.I.getattr(t, st.objs[i].fields["@node"] if i in st.objs else t.objs[i].fields["@node"], "parent", node):
                    v = u.tmp.pop()
                    out.append((u, ("tup", (v, p))))
            else:
                v = t.tmp.pop()
                out.append((t, v))
        return out

    def absent_place(self, st):
        """slots below which an absent key belongs -> [(state, slot)]"""
        g = st.ghost.get("G")
        if g is not None and g[0] == "side" and st.objs[g[1][1]].fields.get("@" + g[2][1]) == NONE:
            return [(st, g[1][1])]
        out = []
        for i in [i for i in self.slots(st, self.I.reach(st)) if self.init(st, i) and self.live(st, i)] + [None]:
            for side in "LR":
                t = st.copy()
                p = self.newslot(t) if i is None else i
                o = t.objs[p].fields
                lt = [x[2][1] for x in t.facts if x[0] == "Klt" and x[1] == self.key(t, p)]
                if "@" + side in o and o["@" + side] != NONE or lt and lt != [side == "L"]:
                    continue
                if "@" + side not in o:
                    if any(x[1] == ref(p) and x[2][1] == side for x in self.subs(t)):
                        continue
                    o["@" + side] = NONE
                t.facts = t.facts | {("Klt", self.key(t, p), ("bool", side == "L"))}
                t.ghost["G"] = ("side", ref(p), ("s", side))
                out.append((t, p))
        return out

    # ------------------------------------------------------------------ audit
    def cur(self, st, i, name):
        """current link as ref | NONE | None (unknown, untouched)"""
        n = self.node(st, i)
        if name in n.fields:
            v = n.fields[name]
            if v == NONE:
                return NONE
            if v[0] != "idx":
                raise Bad("%s holds something that is no index" % name)
            if v[2] != "ok":
                raise Bad("%s of a node is an index from before the array was rearranged" % name)
            return v[1]
        return st.objs[i].fields.get(BF[name])

    def wanted(self, st, S):
        """first base link that has to be known for the audit"""
        for i in S:
            o = st.objs[i].fields
            if not self.init(st, i):
                continue
            if not self.live(st, i):
                for f in ("@L", "@R", "@P"):
                    if f not in o:
                        return i, f
                continue
            n = self.node(st, i)
            for name, f in BF.items():
                if name in n.fields and f not in o:
                    return i, f
        for i in S:
            if not self.live(st, i):
                continue
            for name in ("left", "right"):
                c = self.cur(st, i, name)
                if c is not None and c != NONE and self.live(st, c[1]) and self.init(st, c[1]) and self.cur(st, c[1], "parent") is None:
                    return c[1], "@P"
            p = self.cur(st, i, "parent")
            if p is not None and p != NONE and self.live(st, p[1]):
                l, r = self.cur(st, p[1], "left"), self.cur(st, p[1], "right")
                if l is None and r != ref(i):
                    return p[1], "@L"
                if r is None and l != ref(i):
                    return p[1], "@R"
        if self.stat:
            w = self.wanted_sizes(st, S)
            if w is not None:
                return w
        return self.wanted_more(st, S)

    def wanted_more(self, st, S):
        return None

    def plan(self, st, S):
        """further base values after a commit -> ({slot: {field: value | None}}, complaint | None)"""
        return {}, None

    def known(self, st):
        return [i for i in self.slots(st, self.I.reach(st)) if self.init(st, i) or self.live(st, i)]

    def complete(self, st):
        """materialises what the audit needs -> states"""
        out, work, n = [], [st], 0
        while work:
            t = work.pop()
            n += 1
            if n > 3000:
                raise Undecided("too many cases in the audit")
            try:
                w = self.wanted(t, self.known(t))
            except Bad:
                w = None
            if w is None:
                out.append(t)
            else:
                work.extend(u for u, _ in self.base(t, w[0], w[1]))
        return out

    def links(self, st):
        S = self.known(st)
        r = st.objs[st.ghost["w"][1]].fields["root_idx"]
        if r[0] != "idx":
            raise Bad("root_idx is no index")
        if r[2] != "ok":
            raise Bad("root_idx is an index from before the array was rearranged")
        root = r[1][1]
        if not self.live(st, root):
            raise Bad("root_idx leads to a removed node")
        if self.cur(st, root, "parent") is None and self.init(st, root):
            raise Bad("the root is a node that has a parent")
        for i in S:
            if not self.live(st, i):
                continue
            l, rr = self.cur(st, i, "left"), self.cur(st, i, "right")
            if l is not None and l != NONE and l == rr:
                raise Bad("both children of a node are the same")
            for name, c in (("left", l), ("right", rr)):
                if c is None or c == NONE:
                    continue
                if not self.live(st, c[1]):
                    raise Bad("%s of a node leads to a removed node" % name)
                if self.cur(st, c[1], "parent") != ref(i):
                    raise Bad("%s of a node leads to a node whose parent is another" % name)
            p = self.cur(st, i, "parent")
            if p == NONE:
                if i != root:
                    raise Bad("a node without parent is not the root")
            elif p is not None:
                if i == root:
                    raise Bad("the root has a parent")
                if not self.live(st, p[1]):
                    raise Bad("parent of a node leads to a removed node")
                if ref(i) not in (self.cur(st, p[1], "left"), self.cur(st, p[1], "right")):
                    raise Bad("parent of a node leads to a node that has other children")
        return S, root

    def linear(self, st, S, top, before, hole):
        """in-order sequence of slots and opaque subtrees below `top`"""
        out, seen = [], set()

        def go(i, d):
            if i in seen or d > 200:
                raise Bad("the links run in a circle")
            seen.add(i)
            kids = []
            for name, f, s in SIDES:
                c = st.objs[i].fields.get(f) if before else self.cur(st, i, name)
                if before and c == NONE and hole is not None and hole[0] == (i, s):
                    c = ("put", hole[1])
                kids.append((c, s))
            for j, (c, s) in enumerate(kids):
                if j == 1:
                    out.append(i)
                if c is None:
                    out.append(("opaque", i, s))
                elif c[0] == "put":
                    out.append(c[1])
                elif c != NONE:
                    go(c[1], d + 1)
        go(top, 0)
        return out

    def sequences(self, st, S, root, hole=None):
        """-> (before, after): component -> sequence"""
        bef, aft = {}, {}
        for i in S:
            if self.init(st, i):
                p = st.objs[i].fields.get("@P")
                if p is None or p == NONE:
                    bef["root" if ref(i) == st.ghost["R0"] else i] = self.linear(st, S, i, True, hole)
        n = 0
        for i in S:
            if self.live(st, i):
                p = self.cur(st, i, "parent")
                if i == root or p is None:
                    aft["root" if i == root else i] = self.linear(st, S, i, False, None)
        seen = [x for s in aft.values() for x in s if not isinstance(x, tuple)]
        if len(seen) != len(set(seen)) or set(seen) != {i for i in S if self.live(st, i)}:
            raise Bad("some nodes are no longer connected to the tree")
        return bef, aft

    def tokens(self, st, seqs, before):
        out = {}
        for c, s in seqs.items():
            r = []
            for x in s:
                if isinstance(x, tuple):
                    r.append(x)
                    continue
                k = self.bkey(st, x) if before else self.key(st, x)
                d = self.bdata(st, x) if before else self.data(st, x)
                if k == NONE:
                    continue
                if k == K and st.ghost["K"][0] == "o" and not before:
                    k = ("okey", st.ghost["K"])
                r.append((k, d))
            out[c] = r
        return out

    def neighbours(self, st):
        """(a, b): key of slot b follows the key of slot a immediately"""
        out = []
        for x in st.facts:
            if x[0] == "ls" and st.objs[x[2][1]].fields.get("@L") == NONE:
                out.append((x[1][1], x[2][1]))
            if x[0] == "rs" and st.objs[x[2][1]].fields.get("@R") == NONE:
                out.append((x[2][1], x[1][1]))
        return out

    def order_ok(self, st, S, root, final):
        """-> (kind of step, None) or raises Bad.  kinds: same, ins, del, set"""
        todo = st.ghost["todo"]
        bef, aft = self.sequences(st, S, root)
        tb, ta = self.tokens(st, bef, True), self.tokens(st, aft, False)
        removed = [i for i in S if self.init(st, i) and not self.live(st, i)]
        added = [i for i in S if self.live(st, i) and not self.init(st, i)]
        moved = [i for i in S if self.live(st, i) and self.init(st, i) and
                 (self.key(st, i) != self.bkey(st, i) or self.data(st, i) != self.bdata(st, i))]
        if not removed and not added:
            if bef == aft and not final:
                return "same"       # keys on the move are judged when a slot is added or removed
            if ta == tb and (todo == NONE or self.fulfilled(st)):
                return "same"
        if todo == NONE:
            if ta != tb:
                raise Bad("the sequence of keys and data changes: " + self.diff(st, tb, ta))
            return "same"
        if todo == ("str", "ins") and st.ghost["K"][0] == "o" and not final and removed and not added:
            st.ghost["todo"] = ("str", "del")      # taken out first, to be put in again
            try:
                if self.expected(st, S, root, bef, added) == ta:
                    return "part"
            finally:
                st.ghost["todo"] = todo
        want = self.expected(st, S, root, bef, added)
        if want != ta:
            raise Bad("the sequence of keys and data is not the one asked for: " + self.diff(st, want, ta))
        return "done"

    def absent(self, st):
        """is the key known not to be in the tree before the operation"""
        if st.ghost["empty"] == TRUE or st.ghost["K"] == ("str", "absent"):
            return True
        g = st.ghost.get("G")
        return st.ghost["K"] == ("str", "?") and g is not None and g[0] == "side" and \
            st.objs[g[1][1]].fields.get("@" + g[2][1]) == NONE

    def fulfilled(self, st):
        """nothing to do: deleting an absent key"""
        return st.ghost["todo"] == ("str", "del") and self.absent(st)

    def expected(self, st, S, root, bef, added):
        todo, k = st.ghost["todo"], st.ghost["K"]
        tb = self.tokens(st, bef, True)
        if todo == ("str", "ins"):
            if k[0] == "o":
                return {c: [(x[0], D) if x[0] == ("okey", k) else x for x in s] for c, s in tb.items()}
            if st.ghost["empty"] == TRUE:
                return {"root": [(K, D)]}
            g = st.ghost.get("G")
            if g is None or g[0] != "side":
                raise Bad("the key is placed without comparing it down to the place")
            if len(added) != 1:
                raise Bad("%d nodes are added" % len(added))
            b2, _ = self.sequences(st, S, root, ((g[1][1], g[2][1]), added[0]))
            out = {}
            for c, s in b2.items():
                out[c] = [x if isinstance(x, tuple) else (K, D) if x == added[0] else (self.bkey(st, x), self.bdata(st, x)) for x in s]
            if not any((K, D) in s for s in out.values()):
                raise Bad("the new node does not stand where its key belongs")
            return out
        if todo == ("str", "del"):
            if self.absent(st):
                return tb
            if k[0] != "o":
                raise Bad("something is removed although the key was not found")
            s = k[1]
            tok = lambda x: (self.bkey(st, x), self.bdata(st, x))     # noqa: E731
            out = {c: list(q) for c, q in tb.items()}
            # keys next to each other in the order may be written next to each other
            gone = {i for i in S if self.init(st, i) and not self.live(st, i)} - {s}
            for a, b in self.neighbours(st):
                for x, y, at in ((a, b, 1), (b, a, 0)):
                    if x == s and y in gone:
                        ca = [c for c, q in out.items() if tok(x) in q]
                        cb = [c for c, q in out.items() if tok(y) in q]
                        if ca and cb:
                            out[cb[0]].remove(tok(y))
                            out[ca[0]].insert(out[ca[0]].index(tok(x)) + at, tok(y))
                            gone = gone - {y}
            for q in out.values():
                if tok(s) in q:
                    q.remove(tok(s))
            return out
        raise Undecided("expectation")

    def diff(self, st, want, got):
        names = {}

        def nm(i):
            return names.setdefault(i, "abcdefghijklmnopqrstuvwxyz"[len(names) % 26])

        def show(d):

            def one(x):
                if x[0] == "opaque":
                    return "<%s of %s>" % ({"L": "left", "R": "right"}[x[2]], nm(x[1]))
                k = "K" if x[0] == K else nm(x[0][1][1]) if x[0][0] == "okey" else str(x[0])
                d = "D" if x[1] == D else nm(x[1][1][1]) if x[1][0] == "odata" else str(x[1])
                return k if k == d or (k, d) == ("K", "D") else "%s/%s" % (k, d)
            return "; ".join(" ".join(one(x) for x in s) or "empty" for _, s in sorted(d.items(), key=lambda z: str(z[0])))
        return "expected [%s], found [%s]" % (show(want), show(got))

    # ------------------------------------------------------------------ sizes
    def cursize(self, st, i):
        n = self.node(st, i)
        if "size" in n.fields:
            v = self.sz(n.fields["size"])
            if v is None:
                raise Bad("size of a node is not computed from its children's sizes")
            return v
        return ("sz", ((ref(i), 1),), 0)

    def touched(self, st, i):
        n = self.node(st, i)
        o = st.objs[i].fields
        if o.get("@dirty") == TRUE or "size" in n.fields or not self.init(st, i):
            return True
        for name, f, _ in SIDES:
            c = self.cur(st, i, name)
            if c != o.get(f):
                return True
            if c is not None and c != NONE and "size" in self.node(st, c[1]).fields:
                return True
        return False

    def place(self, st, i, name):
        """size below that link now: of the child, none, or of the unknown subtree there"""
        c = self.cur(st, i, name)
        if c == NONE:
            return ("sz", (), 0)
        if c is None:
            return ("sz", ((("pl", ref(i), ("s", dict((n, x) for n, _, x in SIDES)[name])), 1),), 0)
        return self.cursize(st, c[1])

    def expand(self, st, v):
        """rewrites the original sizes: a node that is not dirty is one more than its two subtrees"""
        for _ in range(200):
            for s, c in v[1]:
                if s[0] == "pl":
                    o = st.objs[s[1][1]].fields.get("@" + s[2][1])
                    if o is None:
                        continue
                    w = ("sz", ((o, 1),) if o != NONE else (), 0)
                elif self.init(st, s[1]) and st.objs[s[1]].fields.get("@dirty") != TRUE:
                    w = ("sz", ((("pl", s, ("s", "L")), 1), (("pl", s, ("s", "R")), 1)), 1)
                else:
                    continue
                v = self.szadd(self.szadd(v, ("sz", ((s, 1),), 0), -c), w, c)
                break
            else:
                return v
        return v

    def wanted_sizes(self, st, S):
        # a subtree whose size changed hangs on an unknown parent
        for i in S:
            if self.live(st, i) and i != self.rootslot(st) and self.cur(st, i, "parent") is None:
                if self.expand(st, self.szadd(self.cursize(st, i), ("sz", ((ref(i), 1),), 0), -1)) != ("sz", (), 0):
                    return i, "@P"
        return None

    def size_errors(self, st, S):
        bad = []
        for i in S:
            if self.live(st, i) and self.touched(st, i):
                v = self.szadd(self.cursize(st, i), ("sz", (), 1), -1)
                for name in ("left", "right"):
                    v = self.szadd(v, self.place(st, i, name), -1)
                if self.expand(st, v) != ("sz", (), 0):
                    bad.append(i)
        return bad

    # ------------------------------------------------------------------ new starting point
    def rename(self, st, S, kind="done"):
        """once the operation has been done, keys and data are named after the slots that hold them now"""
        m, k = {}, st.ghost["K"]
        for i in S:
            if self.live(st, i):
                for name, v, new in (("key", self.key(st, i), ("okey", ref(i))), ("data", self.data(st, i), ("odata", ref(i)))):
                    if v == K:
                        st.ghost["K"] = ref(i)
                    elif v != new and v != NONE:
                        m[v] = new
        held = set(m) | {self.key(st, i) for i in S if self.live(st, i)}
        if (st.ghost["todo"] == ("str", "del") or kind == "part") and k[0] == "o":
            st.ghost["K"] = ("str", "absent")
            st.ghost["was"] = TRUE
            m[("okey", k)] = K
            m[("odata", k)] = ("user", "gone")
        for i in S:
            if ("okey", ref(i)) not in held and ("okey", ref(i)) not in m:
                m[("okey", ref(i))] = ("user", "gone")

        def val(v):
            if isinstance(v, tuple) and v:
                if v in m:
                    return m[v]
                if v[0] in ("num", "str", "o", "sz"):
                    return v
                return tuple(val(x) for x in v)
            return v
        for f in st.frames:
            f.vars = {k: val(v) for k, v in f.vars.items()}
        st.tmp = [val(v) for v in st.tmp]
        for o in st.objs.values():
            if o.kind != "slot" and "@slot" not in o.fields:
                o.fields = {k: val(v) for k, v in o.fields.items()}
                if o.items is not None:
                    o.items = [val(v) for v in o.items]
        st.facts = frozenset(x for x in st.facts if x[0] not in ("Klt", "ne"))
        for i in S:
            n, o = self.node(st, i), st.objs[i].fields
            if self.live(st, i):
                none = {f for f in ("key", "data") if getattr(self, f)(st, i) == NONE}
                for f, b in (("key", "@bk"), ("data", "@bd")):
                    o.pop(b, None)
                    n.fields.pop(f, None)
                    n.mod.discard(f)
                    if f in none:
                        o[b] = NONE
        if kind == "done":
            st.ghost["todo"] = NONE
        st.ghost.pop("G", None)

    def commit(self, st, S, root, kind, dirty, plan):
        changed = set()
        for i in S:
            if not self.live(st, i):
                changed.add(i)
                continue
            n = self.node(st, i)
            o = st.objs[i].fields
            links = {}
            for name, f in BF.items():
                c = self.cur(st, i, name)
                if c != o.get(f):
                    changed.add(i)
                links[f] = c
            for f, c in links.items():
                if c is not None:
                    o[f] = c
            if not self.init(st, i):
                changed.add(i)
        for i in S:
            n = self.node(st, i)
            o = st.objs[i].fields
            if not self.live(st, i):
                o["@init"] = FALSE
                for f in [f for f in o if f not in ("@live", "@init", "@node")]:
                    o.pop(f, None)
                if n is not None:
                    n.mod = set()
                continue
            o["@init"] = TRUE
            if i in dirty:
                o["@dirty"] = TRUE
            else:
                o.pop("@dirty", None)
            for f in ("left", "right", "parent", "size"):
                n.fields.pop(f, None)
                n.mod.discard(f)
            n.kind = "node"
            self.commit_more(st, i, n, o)
            for f, v in plan.get(i, {}).items():
                if v is None:
                    o.pop(f, None)
                else:
                    o[f] = v
        st.ghost["R0"] = ref(root)
        if kind in ("done", "part"):
            self.rename(st, S, kind)
        st.facts = frozenset(x for x in st.facts if not (x[0] in ("sub", "ls", "rs") and any(isinstance(y, tuple) and y[0] == "o" and y[1] in changed for y in x)))

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "sz":
                    return TOP
                if v[0] in ("num", "str", "o"):
                    return v
                return tuple(val(x) for x in v)
            return v
        for f in st.frames:
            f.vars = {k: val(v) for k, v in f.vars.items()}
        return st

    def commit_more(self, st, i, n, o):
        n.mod.discard("is_root")
        n.fields.pop("is_root", None)
        n.mod -= {"color", "height", "priority"}
        for f in ("color", "height", "priority"):
            n.fields.pop(f, None)

    def rebase(self, st):
        return self.fold(st, False)

    def fold(self, st, cut=True):
        out = []
        if self.roots(st):
            for t in self.complete(st):
                try:
                    S, root = self.links(t)
                    kind = self.order_ok(t, S, root, False)
                    dirty = self.size_errors(t, S) if self.stat else []
                    plan = self.plan(t, S)[0]
                except Bad:
                    if len(self.roots(t)) > 9:
                        raise Undecided("a loop changes more nodes than are followed before the tree is in order again")
                    out.append(t)
                    continue
                out.append(self.commit(t, S, root, kind, dirty, plan))
        else:
            out = [st]
        if cut:
            for t in out:
                self.cut(t)
        return out

    def cut(self, st):
        core = {}

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "o":
                    o = st.objs[v[1]]
                    if o.kind == "slot":
                        core.setdefault(v[1])
                    elif "@slot" in o.fields:
                        core.setdefault(o.fields["@slot"][1])
                    elif v[1] not in seen:
                        seen.add(v[1])
                        for _, x in sorted(o.fields.items()):
                            val(x)
                        for x in o.items or ():
                            val(x)
                else:
                    for x in v:
                        val(x)
        w = st.ghost["w"]
        seen = {w[1]}
        for f in st.frames:
            for _, v in sorted(f.vars.items()):
                val(v)
            val(f.first)
        for v in st.tmp:
            val(v)
        for k, v in sorted(st.ghost.items()):
            if k not in ("R0", "K"):
                val(v)
        strong = set(core)
        for _, v in sorted(st.objs[w[1]].fields.items()):
            val(v)
        val(st.ghost["R0"])
        val(st.ghost["K"])
        pins = set(self.roots(st))
        core.update(dict.fromkeys(sorted(pins)))
        for i in pins:          # what modified nodes refer to stays
            n = self.node(st, i)
            if n is not None:
                for _, x in sorted(n.fields.items()):
                    val(x)
        reach = self.I.reach(st)
        facts = set()
        for i in core:
            if not self.init(st, i):
                continue
            for a, s in self.chain(st, i):
                if a in core and a != st.ghost["R0"][1]:
                    facts.add(("sub", ref(a), ("s", s), ref(i)))
        st.facts = frozenset(x for x in (st.facts | facts) if all(y[1] in core for y in self.objrefs(x)))
        g = st.ghost.get("G")
        for i in self.slots(st, reach):
            o = st.objs[i].fields
            if i not in pins and not (g is not None and g[1] == ref(i)) and st.ghost["K"] != ref(i):
                for f, side, spine in (("@L", "L", "ls"), ("@R", "R", "rs")):
                    if o.get(f) == NONE and not any(x[0] == spine and x[2] == ref(i) for x in st.facts):
                        del o[f]
            if i not in strong and i not in pins:
                # only the tree itself or the key refers to it: what is known of its children is forgotten
                for f, side in (("@L", "L"), ("@R", "R")):
                    v = o.get(f)
                    if v == NONE or v is not None and v[1] not in strong and v[1] not in pins:
                        if v != NONE and st.objs[v[1]].fields.get("@P") == ref(i):
                            del st.objs[v[1]].fields["@P"]
                        del o[f]
            for f in ("@L", "@R", "@P"):
                v = o.get(f)
                if v is not None and v != NONE and v[1] not in core:
                    del o[f]
        self.cut_more(st, core, strong, pins)

    def cut_more(self, st, core, strong, pins):
        pass

    @staticmethod
    def objrefs(x):
        out = []
        if isinstance(x, tuple) and x:
            if x[0] == "o":
                return [x]
            for y in x:
                out += TreeTheory.objrefs(y)
        return out

    # ------------------------------------------------------------------ verdict
    def judge(self, st, v, result):
        for t in self.complete(st):
            S, root = self.links(t)
            kind = self.order_ok(t, S, root, True)
            if self.stat:
                b = self.size_errors(t, S)
                if b:
                    raise Bad("size of a node is not the sum of its children's sizes plus one")
            b = self.plan(t, S)[1]
            if b:
                raise Bad(b)
            if result is not None:
                result(self, t, v, kind)


def deleted(T, st, v, kind):
    """True if the key was there, None if not"""
    there = st.ghost.get("was") == TRUE or kind == "done" and st.ghost["K"][0] == "o"
    if v == TOP:
        raise Undecided("result")
    if v != (TRUE if there else NONE):
        raise Bad("returns %s although the key was %s" % ("None" if v == NONE else v[1] if v[0] == "bool" else v[0], "there" if there else "not there"))


def found(T, st, v, kind):
    if v == NONE:
        if not T.absent(st):
            raise Bad("says the key is not there without having looked at the place where it belongs")
    elif v[0] != "idx" or v[2] != "ok" or st.ghost["K"] != v[1]:
        raise Bad("the index returned is not that of the key")


def found_parent(T, st, v, kind):
    if v[0] != "tup" or len(v[1]) != 2:
        raise Undecided("result")
    found(T, st, v[1][0], kind)
    p = v[1][1]
    if st.ghost["empty"] == TRUE:
        want = NONE
    elif v[1][0] == NONE:
        g = st.ghost.get("G")
        want = None if g is None else g[1]
    else:
        want = st.objs[st.ghost["K"][1]].fields.get("@P")
    if want is None:
        raise Undecided("parent")
    if (NONE if p == NONE else p[1] if p[0] == "idx" and p[2] == "ok" else None) != want:
        raise Bad("the parent returned is not the one of the key's place")


class Runner:
    def __init__(self, rep, prog):
        self.rep, self.P = rep, prog
        self.states = self.steps = self.cases = self.audits = 0
        self.funcs = set()

    def case(self, cname, node, op, args, todo, empty, stat, theory=TreeTheory, unroll=(1, 2, 3), result=None, kw=None, root=None, summaries=True):
        cls, ncls = self.P.require_class(cname), self.P.require_class(node)
        label = "%s.%s" % (cname, op)
        name = "%s tree%s" % ("an empty" if empty else "every non-empty", ", sizes kept" if stat else "")
        self.cases += 1

        def run(unroll, limit):
            T = theory(cls, self.P.require_class(root) if root else ncls, stat)
            T.summaries = summaries
            I = Shape(self.P, T)
            I.unroll, I.MAXSTEPS = unroll, limit
            st, w = T.start(self.P, empty)
            st.ghost["todo"] = ("str", todo) if todo else NONE
            try:
                for t, v in I.callmethod(st, w, op, list(args), None, kw):
                    self.states += 1
                    if isinstance(v, Exc):
                        raise Bad("fails at %s: %s" % (v.where, v.name))
                    T.judge(t, v, result)
            finally:
                self.steps += I.steps
                self.funcs |= {f.qual for f in I.visited}
        m = self.P.find_method(cls, op)
        why = None
        try:
            run(None, 120000)
            self.rep.count("obligations")
            return
        except GIVEUP as e:
            why = str(e)
        except Bad as e:
            why = "%s, not confirmed" % e
        # the first iterations of every loop alone, without joining anything: what fails here fails
        for k in unroll:
            try:
                run(k, 250000)
            except Bad as e:
                self.rep.violate("tree", "%s:%d" % (m.module.path, m.node.lineno), label, "for %s: %s" % (name, e))
                return
            except GIVEUP as e:
                why += " (%s in %d iterations)" % (e, k)
                break
        self.rep.undecide("%s (%s): %s" % (label, name, why))


BST, INS, DEL = "BinarySearchTree", "ins", "del"


def jobs():
    """(class, kind of node, operation, arguments, what it does, what it returns, further options)"""
    out = []
    prio = ("user", "PRIO")
    out.append((BST, "TreeNode", "insert", [K, D], INS, None, {}))
    out.append((BST, "TreeNode", "delete", [K], DEL, "deleted", {}))
    out.append((BST, "TreeNode", "search", [K], None, "found", {"summaries": False}))
    out.append((BST, "TreeNode", "search", [K], None, "found_parent", {"summaries": False, "kw": {"parent": TRUE}}))
    out.append(("SplayTree", "TreeNode", "insert", [K, D], INS, None, {}))
    out.append(("SplayTree", "TreeNode", "delete", [K], DEL, "deleted", {}))
    out.append(("CartesianTree", "CartesianTreeNode", "insert", [K, prio, D], INS, None, {"root": "TreeNode"}))
    out.append(("CartesianTree", "CartesianTreeNode", "delete", [K], DEL, "deleted", {}))
    out.append(("Treap", "CartesianTreeNode", "insert", [K, D], INS, None, {"root": "TreeNode"}))
    out.append(("Treap", "CartesianTreeNode", "delete", [K], DEL, "deleted", {}))
    return out


def one(i, empty, stat):
    from .core import Report
    c, n, op, args, todo, res, opt = jobs()[i]
    rep = Report("P11")
    R = Runner(rep, Program())
    opt = dict(opt)
    roots = [None, opt["root"]] if "root" in opt and empty else [None]
    opt.pop("root", None)
    for r in roots:
        R.case(c, n, op, args, todo, empty, stat, result=globals()[res] if res else None, root=r, **opt)
    return list(rep.viol.values()), rep.undecided, dict(rep.counts), R.states, R.cases, R.steps, R.funcs


def check_trees(rep, tier):
    import multiprocessing as mp
    rep.rule("after every operation, for every tree, key and comparator: child and parent links agree, the root is the one node without parent, nothing removed is "
             "linked, the in-order sequence is the one before with the key put in its place or taken out, and (if kept) sizes add up")
    work = [(i, e, s) for i in range(len(jobs())) for e in (True, False) for s in (False, True)]
    with mp.Pool(min(8, mp.cpu_count())) as pool:
        res = pool.starmap(one, work, 1)
    funcs = set()
    for viol, und, counts, states, cases, steps, fn in res:
        for v in viol:
            rep.violate(v["rule"], v["where"], v["construct"], v["detail"])
        for u in und:
            rep.undecide(u)
        rep.count("obligations", counts.get("obligations", 0))
        rep.count("final_states", states)
        rep.count("cases", cases)
        rep.count("abstract_steps", steps)
        funcs |= fn
    rep.counts["functions_interpreted"] = len(funcs)
    rep.sample(sorted(funcs))
    return rep
