"""Arrays, and the stacks and queues kept in them: exact sequences (shape analysis).

A Python list of symbolic length is a sequence of segments over its positions lo..hi:
    orig d    position p holds what cell p+d of the array held before the operation
    pack a b  the filled cells a..b-1 of the original array, in their order
    fill v    every position holds v
The array before the operation has S cells; cells behind L are empty.  In the model "holes" a cell up to
L may be empty or filled (M cells are filled); in the model "dense" exactly the cells F..L are filled; in
the model "any" nothing is known about the cells.  What is read from a cell whose filling is not known is
split, and remembered as a range of filled or empty cells.  After the operation the segments are read as
the sequence of filled cells and compared with what the contract says."""
import ast

from . import zone as Z
from .program import Program
from .shape import Shape, Theory, State, Exc, Undecided, GIVEUP, NONE, TRUE, FALSE, TOP, num

S, L, F, M, J = (Z.sym(x) for x in "SLFMJ")
ZERO, ONE = Z.const(0), Z.const(1)
X = ("user", "X")
DTYPE = ("user", "dtype")
FACTOR = ("user", "load factor")     # of the array of a queue: a positive number
INIT = ("user", "INIT")


class Bad(Exception):
    pass


def seg(lo, hi, d):
    return ("seg", ("num", lo), ("num", hi), d)


def orig(off=ZERO):
    return ("orig", ("num", off))


def pack(a, b):
    return ("pack", ("num", a), ("num", b))


def fill(v):
    return ("fill", v)


EMPTY = fill(NONE)


class ArrayTheory(Theory):
    symbolic_lists = True
    thresholds = (-1, 0, 1)

    def __init__(self, model, low=ZERO):
        self.model, self.first = model, low

    # ------------------------------------------------------------ lists as segments
    def sym(self, st, v):
        return v[0] == "o" and "@segs" in st.objs[v[1]].fields

    def issym(self, st, v):
        return v[0] == "o" and st.objs[v[1]].kind == "list" and (self.sym(st, v) or st.objs[v[1]].items is not None)

    def tosym(self, st, v):
        o = st.objs[v[1]]
        if o.items is not None:
            o.fields["@segs"] = tuple(seg(Z.const(i), Z.const(i), self.desc(x, Z.const(i))) for i, x in enumerate(o.items))
            o.items = None

    def desc(self, v, p):
        if v[0] == "cell":
            return orig(Z.sub(v[1][1], p))
        return fill(v)

    def segs(self, st, v):
        return st.objs[v[1]].fields["@segs"]

    def len(self, st, v):
        s = self.segs(st, v)
        return Z.add(s[-1][2][1], ONE) if s else ZERO

    def put(self, st, v, segs):
        """stores the segments: empty ones dropped, neighbours that say the same merged -> [state]"""
        out = []
        for t, r in self.nonempty(st, segs):
            if len(r) > 14:
                raise Undecided("too many parts of a list to remember")
            t.objs[v[1]].fields["@segs"] = tuple(self.merge(t, r))
            out.append(t)
        return out

    def nonempty(self, st, segs):
        cur = [(st, ())]
        for s in segs:
            nxt = []
            for t, acc in cur:
                for u, e in self.I.split_le0(t, Z.add(Z.sub(s[2][1], s[1][1]), ONE)):
                    nxt.append((u, acc if e else acc + (s,)))
            cur = nxt
        return cur

    def le(self, st, a, b):
        return st.zone.decide_le0(Z.sub(a, b)) is True

    def eq(self, st, a, b):
        return st.zone.decide_eq0(Z.sub(a, b)) is True

    def low(self):
        return self.first

    def facts(self, st):
        return st.ghost.get("null", ())

    def covered(self, st, a, b, filled):
        """are all cells a..b known to be filled / empty?"""
        cur = a
        for _ in range(8):
            if self.le(st, Z.add(b, ONE), cur):
                return True
            if not filled and self.le(st, Z.add(L, ONE), cur):
                return True
            nxt = None
            if not filled and self.le(st, Z.add(cur, ONE), self.low()):
                nxt = self.low()
            if filled and self.model == "dense" and self.le(st, self.first, cur) and self.le(st, cur, L):
                nxt = Z.add(L, ONE)
            for f in self.facts(st):
                if f[3] == filled and self.le(st, f[1][1], cur) and self.le(st, Z.add(cur, ONE), f[2][1]):
                    nxt = f[2][1]
            if nxt is None:
                return False
            cur = nxt
        return False

    def src(self, s):
        return Z.add(s[1][1], s[3][1][1]), Z.add(s[2][1], s[3][1][1])

    def aspack(self, st, s):
        if s[3][0] == "pack":
            return s
        if s[3][0] == "orig" and self.model == "holes":
            a, b = self.src(s)
            if self.covered(st, a, b, True):
                return ("seg", s[1], s[2], pack(a, Z.add(b, ONE)))
        return None

    def join2(self, st, a, b):
        ka, kb = a[3][0], b[3][0]
        if ka == kb == "orig" and self.eq(st, a[3][1][1], b[3][1][1]):
            return ("seg", a[1], b[2], a[3])
        if ka == kb == "fill" and a[3] == b[3]:
            return ("seg", a[1], b[2], a[3])
        if ka == "orig" and b[3] == EMPTY:
            o = a[3][1][1]
            if self.covered(st, Z.add(b[1][1], o), Z.add(b[2][1], o), False):
                return ("seg", a[1], b[2], a[3])
        if kb == "orig" and a[3] == EMPTY:
            o = b[3][1][1]
            if self.covered(st, Z.add(a[1][1], o), Z.add(a[2][1], o), False):
                return ("seg", a[1], b[2], b[3])
        if "fill" in (ka, kb):
            return None
        p, q = self.aspack(st, a), self.aspack(st, b)
        if p is not None and q is not None and self.covered(st, p[3][2][1], Z.sub(q[3][1][1], ONE), False):
            return ("seg", a[1], b[2], ("pack", p[3][1], q[3][2]))
        return None

    def merge(self, st, segs):
        out = []
        for s in segs:
            if s[3][0] == "orig" and not self.eq(st, s[3][1][1], ZERO):
                s = self.aspack(st, s) or s
            while out:
                m = self.join2(st, out[-1], s)
                if m is None:
                    # different offsets that cannot stay as they are: both as packs
                    if out[-1][3][0] != "fill" and s[3][0] == "pack":
                        p = self.aspack(st, out[-1])
                        if p is not None:
                            out[-1] = p
                    break
                out.pop()
                s = m
            out.append(s)
        return out

    # ------------------------------------------------------------ facts about cells
    def learn(self, st, p, filled):
        """-> bool (consistent)"""
        fs = list(self.facts(st))
        a, b = p, Z.add(p, ONE)
        again = True
        while again:
            again = False
            for f in fs:
                if f[3] != filled:
                    continue
                if self.eq(st, f[2][1], a):
                    a, again = f[1][1], True
                elif self.eq(st, f[1][1], b):
                    b, again = f[2][1], True
                if again:
                    fs.remove(f)
                    break
        fs.append(("nr", ("num", a), ("num", b), filled))
        if len(fs) > 8:
            raise Undecided("too many cells to remember")
        st.ghost["null"] = tuple(fs)
        return self.bound(st)

    def bound(self, st):
        """the cells known to be filled, without counting one twice, are at most M"""
        if self.model != "holes":
            return True
        known = [(f[1][1], f[2][1], Z.sub(f[2][1], f[1][1])) for f in self.facts(st) if f[3]]
        lists = [[(s[3][1][1], s[3][2][1], Z.add(Z.sub(s[2][1], s[1][1]), ONE)) for s in o.fields["@segs"] if s[3][0] == "pack"]
                 for o in st.objs.values() if "@segs" in o.fields]
        for packs in [[]] + [x for x in lists if x]:
            if any(not self.le(st, x[1], y[0]) for x, y in zip(packs, packs[1:])):
                continue
            got = list(packs)
            for f in known:
                if all(self.le(st, f[1], x[0]) or self.le(st, x[1], f[0]) for x in got):
                    got.append(f)
            n = ZERO
            for x in got:
                n = Z.add(n, x[2])
            if got and not st.zone.assume_le0(Z.sub(n, M)):
                return False
        return True

    def filled(self, st, p):
        """-> [(state, is cell p filled?)]"""
        I, out = self.I, []
        for t, over in I.split_le0(st, Z.sub(Z.add(L, ONE), p)):
            if over:
                out.append((t, False))
                continue
            for u, under in I.split_le0(t, Z.sub(Z.add(p, ONE), self.low())):
                if under:
                    out.append((u, False))
                    continue
                if self.model == "dense":
                    out.append((u, True))
                    continue
                cur = [u]
                for f in self.facts(u):
                    nxt = []
                    for w in cur:
                        for x, a in I.split_le0(w, Z.sub(f[1][1], p)):
                            if not a:
                                nxt.append(x)
                                continue
                            for y, b in I.split_le0(x, Z.add(Z.sub(p, f[2][1]), ONE)):
                                if b:
                                    out.append((y, f[3]))
                                else:
                                    nxt.append(y)
                    cur = nxt
                for w in cur:
                    a, b = I.alts(w, 2)
                    if self.learn(a, p, True):
                        out.append((a, True))
                    if self.learn(b, p, False):
                        out.append((b, False))
        return out

    # ------------------------------------------------------------ canonical states at loop heads
    def anchor(self, st):
        """numbers known to equal a symbol of the initial state (or a constant) are written that way"""
        m = {}
        perm = [x for x in "SLFMJ" if x in st.zone.syms]
        for w in st.zone.syms - {"0"}:
            for p in perm[:perm.index(w)] if w in perm else perm + ["0"]:
                a, b = st.zone.get(w, p), st.zone.get(p, w)
                if a is not None and b is not None and a + b == 0:
                    m[w] = Z.const(a) if p == "0" else Z.sym(p, a)
                    break
        if not m:
            return

        def val(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "num":
                return ("num", Z.rename(v[1], m))
            if v[0] == "range":
                return ("range", Z.rename(v[1], m), Z.rename(v[2], m), v[3])
            return tuple(val(x) for x in v)
        for f in st.frames:
            f.vars = {k: val(v) for k, v in f.vars.items()}
            f.first = val(f.first) if f.first is not None else None
        st.tmp = [val(v) for v in st.tmp]
        st.ghost = {k: val(v) for k, v in st.ghost.items()}
        for o in st.objs.values():
            o.fields = {k: val(v) for k, v in o.fields.items()}
            if o.items is not None:
                o.items = [val(x) for x in o.items]
        st.zone.extra = frozenset(Z.rename(t, m) for t in st.zone.extra)
        st.zone.restrict({x for x in st.zone.syms if x not in m or x in perm})

    def tag(self, st):
        out = [(k, st.zone.decide_le0(Z.sub(v[1], Z.sym(p)))) for k, v in sorted(st.frames[-1].vars.items())
               if k.startswith(".i") and v[0] == "num" for p in "FJ" if p in st.zone.syms]
        starts = [f[1][1] for f in self.facts(st)]
        for i, o in sorted(st.objs.items()):
            starts += [s[3][1][1] for s in o.fields.get("@segs", ()) if s[3][0] == "pack"]
        where = tuple(st.zone.decide_le0(Z.sub(J, x)) for x in starts) if "J" in st.zone.syms else ()
        return tuple(out), where, tuple(x if x == ZERO or x[0] and all(s[0].isupper() for s, _ in x[0]) else None for x in starts)

    def fold(self, st):
        self.anchor(st)
        ids = [i for i in sorted(self.I.reach(st)) if st.objs[i].kind == "list"]
        cur = [st]
        for i in ids:
            nxt = []
            for t in cur:
                self.tosym(t, ("o", i))
                nxt.extend(u for u in self.put(t, ("o", i), t.objs[i].fields["@segs"]) if self.roomy(u, ("o", i)))
            cur = nxt
        for t in cur:
            self.absorb(t, ids)
        return cur

    def roomy(self, st, v):
        """as many cells as elements packed: -> bool (consistent)"""
        return all(st.zone.assume_le0(Z.add(Z.sub(a, b), ONE)) for s in self.segs(st, v) if s[3][0] == "pack"
                   for a, b in [(s[3][1][1], s[3][2][1])])

    def absorb(self, st, ids):
        """facts that lists carry themselves are dropped"""
        fs = list(self.facts(st))
        for i in ids:
            o = st.objs[i]
            segs = list(o.fields["@segs"])
            for k, s in enumerate(segs):
                if s[3][0] != "pack":
                    continue
                a, b = s[3][1][1], s[3][2][1]
                again = True
                while again:
                    again = False
                    for f in fs:
                        if not f[3] and self.eq(st, f[1][1], b):
                            b, again = f[2][1], True
                        elif not f[3] and self.eq(st, f[2][1], a):
                            a, again = f[1][1], True
                        if again:
                            fs.remove(f)
                            break
                segs[k] = ("seg", s[1], s[2], pack(a, b))
            o.fields["@segs"] = tuple(segs)
        keep = []
        for f in fs:
            a, b = f[1][1], f[2][1]
            if Z.is_const(Z.sub(b, a)) and all(s[0].isupper() for s, _ in a[0]) and a[0] or "J" in st.zone.syms and self.le(st, a, J) \
                    and self.le(st, Z.add(J, ONE), b):
                keep.append(f)
                continue
            needed = whole = False
            for i in ids:
                if i == st.ghost.get("@data", ("o", None))[1]:
                    continue
                inside = False
                for s in st.objs[i].fields["@segs"]:
                    if s[3][0] == "orig":
                        x, y = self.src(s)
                        y = Z.add(y, ONE)
                        if self.eq(st, x, a) and self.eq(st, y, b):
                            whole = True
                    elif s[3][0] == "pack":
                        x, y = s[3][1][1], s[3][2][1]
                    else:
                        continue
                    if self.le(st, x, a) and self.le(st, b, y):
                        inside = True
                needed = needed or not inside
            if f[3] and whole or not f[3] and needed:
                keep.append(f)
        st.ghost["null"] = tuple(keep)

    # ------------------------------------------------------------ reading and writing
    def place(self, st, v, p, node, extra=0):
        """a Python index -> [(state, position 0..n-1+extra or Exc)]"""
        I, out = self.I, []
        n = self.len(st, v)
        for t, neg in I.split_le0(st, Z.add(p, ONE)):
            q = Z.add(p, n) if neg else p
            for u, under in I.split_le0(t, Z.add(q, ONE)):
                if under:
                    out.append((u, Exc("IndexError", I.where(u, node))))
                    continue
                for w, ok in I.split_le0(u, Z.add(Z.sub(q, n), Z.const(1 - extra))):
                    out.append((w, q if ok else Exc("IndexError", I.where(w, node))))
        return out

    def locate(self, st, v, p):
        """0 <= p < n -> [(state, index of the segment)]"""
        cur, out = [st], []
        segs = self.segs(st, v)
        for k, s in enumerate(segs):
            if k == len(segs) - 1:
                out.extend((t, k) for t in cur)
                break
            nxt = []
            for t in cur:
                for u, here in self.I.split_le0(t, Z.sub(p, s[2][1])):
                    if here:
                        out.append((u, k))
                    else:
                        nxt.append(u)
            cur = nxt
        return out

    def at(self, st, v, p):
        out = []
        for t, k in self.locate(st, v, p):
            d = self.segs(t, v)[k][3]
            if d[0] == "orig":
                out.append((t, ("cell", ("num", Z.add(p, d[1][1])))))
            elif d[0] == "fill":
                out.append((t, d[1]))
            else:
                out.append((t, ("user", "@packed")))
        return out

    def cut(self, st, v, p):
        """0 <= p <= n -> [(state, segments before, segments from p on)]"""
        segs = self.segs(st, v)
        out = []
        for t, end in self.I.split_le0(st, Z.sub(self.len(st, v), p)):
            if end:
                out.append((t, segs, ()))
                continue
            for u, k in self.locate(t, v, p):
                s = segs[k]
                if self.eq(u, p, s[1][1]):
                    out.append((u, segs[:k], segs[k:]))
                    continue
                if s[3][0] == "pack":
                    for w, g in self.I.split_sign(u, Z.sub(p, s[1][1])):
                        if g:
                            raise Undecided("a packed part is divided")
                        out.append((w, segs[:k], segs[k:]))
                    continue
                out.append((u, segs[:k] + (("seg", s[1], ("num", Z.sub(p, ONE)), s[3]),),
                            (("seg", ("num", p), s[2], s[3]),) + segs[k + 1:]))
        return out

    def shift(self, segs, d):
        out = []
        for s in segs:
            e = s[3]
            if e[0] == "orig":
                e = orig(Z.sub(e[1][1], d))
            out.append(("seg", ("num", Z.add(s[1][1], d)), ("num", Z.add(s[2][1], d)), e))
        return tuple(out)

    def store(self, st, v, p, x):
        out = []
        for t, a, b in self.cut(st, v, p):
            t.objs[v[1]].fields["@segs"] = tuple(b)
            b2 = b
            for u, c, d in self.cutsegs(t, b2, Z.add(p, ONE)):
                out.extend(self.put(u, v, a + (seg(p, p, self.desc(x, p)),) + d))
        return out

    def cutsegs(self, st, segs, p):
        tmp = st.new("list", None, {"@segs": tuple(segs)})
        out = self.cut(st, tmp, p)
        for t, _, _ in out:
            t.objs.pop(tmp[1], None)
        return out

    def fresh(self, st, segs):
        """-> [(state, new list)]"""
        v = st.new("list", None, {"@segs": ()})
        return [(t, v) for t in self.put(st, v, segs)]

    # ------------------------------------------------------------ hooks
    def repeat(self, st, v, n):
        if v[0] == "cell":
            raise Undecided("repeated cell")
        return self.fresh(st, (seg(ZERO, Z.sub(n, ONE), fill(v)),))

    def iterable(self, st, v):
        if v[0] in ("enumerate", "reversed"):
            return self.iterable(st, v[1])
        return self.sym(st, v)

    def iterlen(self, st, v):
        return self.iterlen(st, v[1]) if v[0] in ("enumerate", "reversed") else self.len(st, v)

    def iterget(self, st, v, i, node):
        if v[0] == "enumerate":
            return [(t, ("tup", (("num", i), x))) for t, x in self.iterget(st, v[1], i, node)]
        if v[0] == "reversed":
            return self.iterget(st, v[1], Z.sub(Z.sub(self.iterlen(st, v[1]), ONE), i), node)
        return self.at(st, v, i)

    def slices(self, st, v):
        return self.sym(st, v)

    def clip(self, st, v, x, default):
        I = self.I
        if x == NONE:
            return [(st, default)]
        if x[0] != "num":
            raise Undecided("slice")
        out, n = [], self.len(st, v)
        for t, neg in I.split_le0(st, Z.add(x[1], ONE)):
            q = Z.add(x[1], n) if neg else x[1]
            for u, under in I.split_le0(t, q):
                if under:
                    out.append((u, ZERO))
                    continue
                for w, ok in I.split_le0(u, Z.sub(q, n)):
                    out.append((w, q if ok else n))
        return out

    def slice(self, st, v, lo, hi, node):
        out = []
        for t, a in self.clip(st, v, lo, ZERO):
            for u, b in self.clip(t, v, hi, self.len(t, v)):
                for w, e in self.I.split_le0(u, Z.sub(b, a)):
                    if e:
                        out.extend(self.fresh(w, ()))
                        continue
                    for x, _, r in self.cut(w, v, a):
                        for y, c, _ in self.cutsegs(x, r, b):
                            out.extend(self.fresh(y, self.shift(c, Z.scale(a, -1))))
        return out

    def setslice(self, st, v, lo, hi, x, node):
        if not (self.issym(st, v) and self.issym(st, x)):
            raise Undecided("slice stored at %s" % self.I.where(st, node))
        if not self.sym(st, v):
            self.tosym(st, v)
        new = self.segs(st, self.copy(st, x))
        n = self.len(st, self.copy(st, x))
        out = []
        for t, a in self.clip(st, v, lo, ZERO):
            for u, b in self.clip(t, v, hi, self.len(t, v)):
                for w, e in self.I.split_le0(u, Z.sub(b, a)):
                    b2 = a if e else b
                    for y, p, r in self.cut(w, v, a):
                        for z, _, q in self.cutsegs(y, r, b2) if r else [(y, (), ())]:
                            out.extend(self.put(z, v, p + self.shift(new, a) + self.shift(q, Z.sub(Z.add(a, n), b2))))
        return out

    def getitem(self, st, b, i, node):
        if not self.sym(st, b):
            if self.issym(st, b) and i[0] == "num" and not Z.is_const(i[1]):
                self.tosym(st, b)
            else:
                return None
        if i[0] != "num":
            raise Undecided("index at %s" % self.I.where(st, node))
        out = []
        for t, q in self.place(st, b, i[1], node):
            out.extend([(t, q)] if isinstance(q, Exc) else self.at(t, b, q))
        return out

    def setitem(self, st, b, i, v, node):
        if not self.sym(st, b):
            if self.issym(st, b) and i[0] == "num" and not Z.is_const(i[1]):
                self.tosym(st, b)
            else:
                return None
        if i[0] != "num":
            raise Undecided("index at %s" % self.I.where(st, node))
        out = []
        for t, q in self.place(st, b, i[1], node):
            out.extend([(t, q)] if isinstance(q, Exc) else [(u, None) for u in self.store(t, b, q, v)])
        return out

    def delitem(self, st, b, i, node):
        if not self.sym(st, b) or i[0] != "num":
            return None
        out = []
        for t, q in self.place(st, b, i[1], node):
            out.extend([(t, q)] if isinstance(q, Exc) else [(u, None) for u in self.drop(t, b, q)])
        return out

    def drop(self, st, b, q):
        out = []
        for t, a, r in self.cut(st, b, q):
            for u, _, d in self.cutsegs(t, r, Z.add(q, ONE)):
                out.extend(self.put(u, b, a + self.shift(d, Z.const(-1))))
        return out

    def truth(self, st, v):
        if self.sym(st, v):
            return [(t, not e) for t, e in self.I.split_le0(st, self.len(st, v))]
        return None

    def getattr(self, st, b, name, node):
        if self.sym(st, b):
            return [(st, ("listm", name, b))]
        if b[0] in ("cell", "conv", "typeof"):
            return [(st, ("topm", name))]
        return None

    def equal(self, st, a, b, node):
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if x[0] == "cell":
                    return [(t, not f) for t, f in self.filled(st, x[1][1])]
                if x[0] in ("user", "conv", "typeof"):
                    return [(st, False)]
            if x == DTYPE and y == ("typeof", X):
                out = self.I.both(st)
                for t, r in out:
                    t.ghost["isdt"] = TRUE if r else FALSE
                return out
            if x == DTYPE or x[0] == "typeof":       # never type(None)
                return [(st, False)] if y in (("typeof", NONE), TOP) else self.I.both(st)
        if "cell" in (a[0], b[0]) or "conv" in (a[0], b[0]):
            return self.I.both(st)
        return None

    def isinst(self, st, v, c):
        cs = list(c[1]) if c[0] == "tup" else [c]
        if any(x[0] in ("user", "typeof", "top") for x in cs):
            if ("typeof", v) in cs:
                if v == X:
                    st.ghost["isdt"] = TRUE
                return [(st, TRUE)]
            if v == NONE:
                return [(st, FALSE)]
            out = []
            for t, r in self.I.both(st):
                if v == X:
                    t.ghost["isdt"] = TRUE if r else FALSE
                out.append((t, TRUE if r else FALSE))
            return out
        if v[0] in ("cell", "conv"):
            return [(t, TRUE if r else FALSE) for t, r in self.I.both(st)]
        return None

    def binop(self, st, op, a, b, node):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x == FACTOR and y[0] == "num" and self.le(st, ONE, y[1]):
                    return [(st, FACTOR)]
        if isinstance(op, ast.Div) and a[0] == b[0] == "num" and self.le(st, ZERO, a[1]) and self.le(st, ONE, b[1]):
            return [(t, ("num", ZERO) if z else TOP) for t, z in self.I.split_le0(st, a[1])]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if y[0] == "num" and self.issym(st, x):
                    o = st.objs[x[1]]
                    if o.items is not None and len(o.items) == 1:
                        return self.repeat(st, o.items[0], y[1])
                    if o.items is not None and Z.is_const(y[1]):
                        return [(st, st.new("list", None, None, list(o.items) * y[1][1]))]
                    raise Undecided("repeated list")
        if isinstance(op, ast.Add) and self.issym(st, a) and self.issym(st, b) and (self.sym(st, a) or self.sym(st, b)):
            a, b = self.copy(st, a), self.copy(st, b)
            return self.fresh(st, self.segs(st, a) + self.shift(self.segs(st, b), self.len(st, a)))
        return None

    def order(self, st, op, a, b, node):
        """the load factor of a queue's array is positive; everything else about it is left open"""
        if b == FACTOR and a[0] == "num" and isinstance(op, (ast.Lt, ast.LtE)) or a == FACTOR and b[0] == "num" and isinstance(op, (ast.Gt, ast.GtE)):
            if self.le(st, a[1] if b == FACTOR else b[1], ZERO):
                return [(st, True)]
        if b == FACTOR and a[0] == "num" and isinstance(op, (ast.Gt, ast.GtE)) or a == FACTOR and b[0] == "num" and isinstance(op, (ast.Lt, ast.LtE)):
            if self.le(st, a[1] if b == FACTOR else b[1], ZERO):
                return [(st, False)]
        return None

    def copy(self, st, v):
        if self.sym(st, v):
            return v
        o = st.objs[v[1]]
        w = st.new("list", None, None, list(o.items))
        self.tosym(st, w)
        return w

    def call(self, st, f, args, kw, node):
        I = self.I
        if f == DTYPE or f[0] == "typeof" or f == TOP and len(args) == 1 and args[0] in (X, ("conv", X)):
            x = args[0] if args else NONE
            return [(st, ("conv", x) if x[0] == "user" else x)]
        if f[0] == "native":
            n = f[1]
            if n == "type" and len(args) == 1 and args[0][0] in ("user", "cell", "conv", "none"):
                return [(st, ("typeof", args[0]))]
            if n in ("len", "list", "reversed", "enumerate", "tuple") and args and (self.sym(st, args[0]) or self.iterable(st, args[0])):
                if n == "len":
                    return [(st, ("num", self.len(st, args[0])))]
                if n == "list" and self.sym(st, args[0]):
                    return self.fresh(st, self.segs(st, args[0]))
                if n in ("reversed", "enumerate"):
                    return [(st, (n, args[0]))]
                raise Undecided("%s at %s" % (n, I.where(st, node)))
            return None
        if f[0] != "listm":
            return None
        name, b = f[1], f[2]
        if name == "__getitem__":
            return I.getitem(st, b, args[0], node)
        if name == "__setitem__":
            return [(t, x if isinstance(x, Exc) else NONE) for t, x in I.setitem(st, b, args[0], args[1], node)]
        if name == "__len__":
            return I.native(st, "len", [b], {}, node) if not self.sym(st, b) else [(st, ("num", self.len(st, b)))]
        if not self.sym(st, b):
            if name == "extend" and args and self.sym(st, args[0]) or name == "insert":
                self.tosym(st, b)
            else:
                return None
        if name == "append":
            n = self.len(st, b)
            return [(t, NONE) for t in self.put(st, b, self.segs(st, b) + (seg(n, n, self.desc(args[0], n)),))]
        if name == "copy":
            return self.fresh(st, self.segs(st, b))
        if name == "clear":
            st.objs[b[1]].fields["@segs"] = ()
            return [(st, NONE)]
        if name == "extend" and self.issym(st, args[0]):
            c = self.copy(st, args[0])
            return [(t, NONE) for t in self.put(st, b, self.segs(st, b) + self.shift(self.segs(st, c), self.len(st, b)))]
        if name in ("insert", "appendleft"):
            i, x = (num(0), args[0]) if name == "appendleft" else (args[0], args[1])
            out = []
            for t, q in self.clip(st, b, i, None):
                for u, p, r in self.cut(t, b, q):
                    out.extend((w, NONE) for w in self.put(u, b, p + (seg(q, q, self.desc(x, q)),) + self.shift(r, ONE)))
            return out
        if name in ("pop", "popleft"):
            i = num(0) if name == "popleft" else args[0] if args else num(-1)
            if i[0] != "num":
                raise Undecided("pop")
            out = []
            for t, q in self.place(st, b, i[1], node):
                if isinstance(q, Exc):
                    out.append((t, q))
                    continue
                for u, x in self.at(t, b, q):
                    u.tmp.append(x)
                    for w in self.drop(u, b, q):
                        out.append((w, w.tmp.pop()))
            return out
        raise Undecided("list method %s at %s" % (name, I.where(st, node)))


# ------------------------------------------------------------------ reading the result
def show(seq):
    out = []
    for s in seq:
        out.append("new" if s[0] == "el" else "[%s..%s]" % (Z.show(s[1]), Z.show(Z.sub(s[2], ONE))))
    return " + ".join(out) or "nothing"


class Final:
    def __init__(self, T):
        self.T, self.I = T, T.I

    def field(self, st, v, name):
        o = st.objs[v[1]]
        if name not in o.fields:
            raise Undecided("no field %s in the final state" % name)
        return o.fields[name]

    def number(self, st, v, name):
        x = self.field(st, v, name)
        if x[0] != "num":
            raise Undecided("field %s is not a number that is followed" % name)
        return x[1]

    def differs(self, st, a, b):
        return any(g != 0 for _, g in self.I.split_sign(st.copy(), Z.sub(a, b)))

    def may(self, st, t):
        """can t <= 0?"""
        return any(b for _, b in self.I.split_le0(st.copy(), t))

    def data(self, st, arr):
        d = self.field(st, arr, "_data")
        if not self.T.issym(st, d):
            raise Undecided("_data is no list that is followed")
        self.T.tosym(st, d)
        return d

    # sequence of filled cells -------------------------------------------------
    def trim(self, st, a, b):
        """range a..b-1 of original cells without what is known to be empty at its ends"""
        I, T = self.I, self.T
        out = []
        for t, x in I.split_le0(st, Z.sub(b, Z.add(L, ONE))):
            for u, y in I.split_le0(t, Z.sub(T.low(), a)):
                lo, hi = a if y else T.low(), b if x else Z.add(L, ONE)
                for w, e in I.split_le0(u, Z.sub(hi, lo)):
                    out.append((w, None if e or T.covered(w, lo, Z.sub(hi, ONE), False) else ("pk", lo, hi)))
        return out

    def add(self, st, acc, x):
        if acc and acc[-1][0] == "pk" == x[0] and self.T.covered(st, acc[-1][2], Z.sub(x[1], ONE), False) \
                and self.T.le(st, acc[-1][2], x[1]):
            return acc[:-1] + (("pk", acc[-1][1], x[2]),)
        return acc + (x,)

    def sequence(self, st, parts):
        cur = [(st, ())]
        for p in parts:
            nxt = []
            for t, acc in cur:
                if p[0] == "pk":
                    for u, x in self.trim(t, p[1], p[2]):
                        nxt.append((u, acc if x is None else self.add(u, acc, x)))
                else:
                    nxt.append((t, acc + (p,)))
            cur = nxt
        return cur

    def parts(self, st, d):
        out = []
        for s in self.T.segs(st, d):
            k = s[3]
            if k[0] == "orig":
                a, b = self.T.src(s)
                out.append(("pk", a, Z.add(b, ONE)))
            elif k[0] == "pack":
                out.append(("pk", k[1][1], k[2][1]))
            elif k[1] != NONE:
                if self.differs(st, s[1][1], s[2][1]):
                    raise Bad("an element is stored more than once")
                out.append(("el", k[1]))
        return out

    def element(self, st, v):
        """v is what storing X leaves"""
        if v == ("conv", X):
            return
        if v != X:
            raise Bad("the element stored is not the one given")
        if st.ghost.get("isdt") != TRUE:
            raise Bad("an element of another type is stored without being converted")

    def same(self, st, act, exp):
        ok = len(act) == len(exp)
        for a, e in zip(act, exp):
            if not ok:
                break
            if a[0] != e[0]:
                ok = False
            elif a[0] == "el":
                self.element(st, a[1])
            else:
                for i in (1, 2):
                    if not self.differs(st, a[i], e[i]):
                        continue
                    x, y = (a[i], e[i])
                    if self.T.covered(st, x, Z.sub(y, ONE), False) and self.T.le(st, x, y) \
                            or self.T.covered(st, y, Z.sub(x, ONE), False) and self.T.le(st, y, x):
                        continue
                    ok = False
        if not ok:
            raise Bad("the array holds %s instead of %s" % (show(act), show(exp)))

    def filledpart(self, st, s):
        """can the segment hold a filled cell: -> [(state, last position that may be filled or None)]"""
        k = s[3]
        if k == EMPTY:
            return [(st, None)]
        if k[0] != "orig":
            return [(st, s[2][1])]
        out = []
        for t, r in self.trim(st, *(lambda a, b: (a, Z.add(b, ONE)))(*self.T.src(s))):
            if r is not None:
                r = self.tail(t, r)
            out.append((t, None if r is None else Z.sub(Z.sub(r[2], ONE), k[1][1])))
        return out

    def tail(self, st, r):
        """the range without the cells at its end that are known to be empty"""
        T, hi, again = self.T, r[2], True
        while again:
            again = False
            for f in T.facts(st):
                if f[3] is False and T.le(st, hi, f[2][1]) and T.le(st, Z.add(f[1][1], ONE), hi):
                    if T.le(st, f[1][1], r[1]):
                        return None
                    hi, again = f[1][1], True
        return (r[0], r[1], hi)

    def array(self, st, arr, exp, count, dense=False, none=False):
        """the dynamic array arr is well formed and holds the sequence exp"""
        st = st.copy()
        d = self.data(st, arr)
        for st in self.T.put(st, d, self.T.segs(st, d)):
            n = self.T.len(st, d)
            if self.differs(st, self.number(st, arr, "_size"), n):
                raise Bad("the size is %s although the array has %s cells" % (Z.show(self.number(st, arr, "_size")), Z.show(n)))
            for t, act in self.sequence(st, self.parts(st, d)):
                for u, e in self.sequence(t, exp):
                    self.same(u, act, e)
                    if self.differs(u, self.number(u, arr, "_num"), count):
                        raise Bad("the number of elements is %s instead of %s" % (
                            Z.show(self.number(u, arr, "_num")), Z.show(count)))
                    self.last(u, arr, d, n, dense, none)

    def last(self, st, arr, d, n, dense, none):
        last = self.number(st, arr, "_last_pos_filled")
        if self.may(st, Z.sub(n, last)) or self.may(st, Z.add(last, Z.const(2))):
            raise Bad("the last filled position %s is outside the array" % Z.show(last))
        cur = [(st, None, False)]
        for s in self.T.segs(st, d):
            nxt = []
            for t, top, hole in cur:
                for u, h in self.filledpart(t, s):
                    if h is None:
                        nxt.append((u, top, hole))
                        continue
                    if self.may(u, Z.add(Z.sub(last, h), ONE)):
                        raise Bad("position %s is filled although the last filled position is %s" % (Z.show(h), Z.show(last)))
                    nxt.append((u, h, hole))
            cur = nxt
        for t, top, _ in cur:
            if self.compact(t, d):
                if (top is not None or dense or none) and self.differs(t, last, Z.const(-1) if top is None else top):
                    raise Bad("the last filled position is %s, the elements end at %s" % (Z.show(last), "none" if top is None else Z.show(top)))
            elif dense:
                raise Bad("the elements are not at the first positions")
            else:
                for s in self.T.segs(t, d):
                    if s[3][0] == "pack" or s[3][0] == "orig" and self.differs(t, s[3][1][1], ZERO):
                        if any(h is not None for _, h in self.filledpart(t.copy(), s)):
                            raise Bad("elements are moved without being packed to the front of the array")

    def compact(self, st, d):
        """the filled cells are the first ones"""
        rest = False
        for s in self.T.segs(st, d):
            k = s[3]
            if k == EMPTY:
                rest = True
                continue
            if k[0] == "orig":
                a, b = self.T.src(s)
                if self.T.covered(st, a, b, False):
                    rest = True
                    continue
                if rest:
                    return False
                if self.T.covered(st, a, b, True):
                    continue
                if self.T.model == "dense" and self.T.le(st, self.T.first, a) and self.T.le(st, a, L):
                    rest = True
                    continue
                return False
            elif rest:
                return False
        return True

    def window(self, st, q, arr):
        """front and rear of a queue delimit the filled cells"""
        d = self.data(st, arr)
        front, rear = self.number(st, q, "_front"), self.number(st, q, "_rear")
        cur = [(st.copy(), None, None)]
        for s in self.T.segs(st, d):
            nxt = []
            for t, lo, hi in cur:
                if s[3] == EMPTY:
                    nxt.append((t, lo, hi))
                    continue
                if s[3][0] != "orig":
                    parts = [(t, (s[1][1], s[2][1]))]
                else:
                    a, b = self.T.src(s)
                    o = s[3][1][1]
                    parts = [(u, None if r is None else (Z.sub(r[1], o), Z.sub(Z.sub(r[2], ONE), o))) for u, r in self.trim(t, a, Z.add(b, ONE))]
                for u, r in parts:
                    if r is None:
                        nxt.append((u, lo, hi))
                        continue
                    if hi is not None and self.differs(u, Z.add(hi, ONE), r[0]):
                        raise Bad("the elements do not occupy consecutive positions")
                    nxt.append((u, r[0] if lo is None else lo, r[1]))
            cur = nxt
        for t, lo, hi in cur:
            lo, hi = (Z.const(-1), Z.const(-1)) if lo is None else (lo, hi)
            if self.differs(t, front, lo) or self.differs(t, rear, hi):
                raise Bad("front and rear are %s and %s, the elements are at %s..%s" % (Z.show(front), Z.show(rear), Z.show(lo), Z.show(hi)))


# ------------------------------------------------------------------ contracts
class Runner:
    def __init__(self, rep, prog):
        self.rep, self.P = rep, prog
        self.states = self.steps = self.cases = 0
        self.funcs = set()

    def case(self, cname, op, name, model, low, setup, judge):
        """setup(T, I, state) -> [(state, value)]"""
        self.cases += 1
        cls = self.P.require_class(cname)
        label = "%s.%s" % (cname, op)

        def run(unroll, limit):
            T = ArrayTheory(model, low)
            I = Shape(self.P, T)
            I.unroll, I.MAXSTEPS = unroll, limit
            try:
                for t, v in setup(T, I, State()):
                    self.states += 1
                    judge(Final(T), t, v)
            finally:
                self.steps += I.steps
                self.funcs |= {f.qual for f in I.visited}
        try:
            run(None, 40000)
            self.rep.count("obligations")
            return
        except GIVEUP as e:
            why = str(e)
        except Bad as e:
            why = "%s, not confirmed" % e
        # the first iterations of every loop alone, without joining anything: what fails here fails
        for k in (1, 2, 3, 5, 7):
            try:
                run(k, 60000)
            except Bad as e:
                m = self.P.find_method(cls, op) or next(iter(cls.methods.values()))
                self.rep.violate("sequence", "%s:%d" % (m.module.path, m.node.lineno), label, "%s: %s" % (name, e))
                return
            except GIVEUP as e:
                why += " (%s in %d iterations)" % (e, k)
                break
        self.rep.undecide("%s (%s): %s" % (label, name, why))


def base(T, I, st, cons):
    """the array before the operation"""
    for c in cons + [Z.scale(S, -1)]:
        if not I.assume(st, c):
            return []
    out = []
    for t, empty in I.split_le0(st, S):
        d = t.new("list", None, {"@segs": () if empty else (seg(ZERO, Z.sub(S, ONE), orig()),)})
        t.ghost["@data"] = d
        out.append((t, d))
    return out


def le(a, b):
    return Z.sub(a, b)


def lt(a, b):
    return Z.add(Z.sub(a, b), ONE)


LASTIN = [lt(L, S), le(Z.const(-1), L)]
HOLES = LASTIN + [le(M, Z.add(L, ONE)), Z.scale(M, -1)]
WHOLE = [le(L, Z.sub(S, ONE)), le(Z.sub(S, ONE), L)]


def dyn(P, T, I, st, cons, count, factor=TOP):
    out = []
    for t, d in base(T, I, st, cons):
        a = t.new("inst", P.require_class("DynamicOneDimensionalArray"), {
            "_size": ("num", S), "_num": ("num", count), "_last_pos_filled": ("num", L), "_data": d,
            "_dtype": DTYPE, "_load_factor": factor})
        t.ghost["arr"] = a
        out.append((t, a))
    return out


def refused(v, errors, what):
    if not isinstance(v, Exc):
        raise Bad(what)
    if v.name not in errors:
        raise Bad("fails with %s at %s instead of refusing" % (v.name, v.where))


def fine(v):
    if isinstance(v, Exc):
        raise Bad("%s at %s although the arguments are valid" % (v.name, v.where))


def iscell(Fi, st, v, p):
    if v[0] != "cell":
        if v == NONE:
            if Fi.T.covered(st, p, p, False):
                return
        elif v[0] in ("top", "user", "num"):
            if v[0] == "top":
                raise Undecided("the value returned is not followed")
        raise Bad("the value returned is not the element at position %s" % Z.show(p))
    if Fi.differs(st, v[1][1], p):
        raise Bad("the element at position %s is returned instead of the one at %s" % (Z.show(v[1][1]), Z.show(p)))


def cells(Fi, st, arr, exp, size):
    """position by position: exp is a list of segments"""
    T = Fi.T
    st = st.copy()
    d = Fi.data(st, arr)
    for t in T.put(st, d, T.segs(st, d)):
        if Fi.differs(t, Fi.number(t, arr, "_size"), size) or Fi.differs(t, T.len(t, d), size):
            raise Bad("the size is %s and the number of cells %s instead of %s" % (
                Z.show(Fi.number(t, arr, "_size")), Z.show(T.len(t, d)), Z.show(size)))
        for u, e in T.nonempty(t, exp):
            e = T.merge(u, e)
            a = T.merge(u, T.segs(u, d))
            ok = len(a) == len(e)
            for x, y in zip(a, e):
                if not ok:
                    break
                if Fi.differs(u, x[1][1], y[1][1]) or Fi.differs(u, x[2][1], y[2][1]) or x[3][0] != y[3][0]:
                    ok = False
                elif x[3][0] == "orig":
                    ok = not Fi.differs(u, x[3][1][1], y[3][1][1])
                elif y[3] == fill(X) and x[3][0] == "fill":
                    Fi.element(u, x[3][1])
                else:
                    ok = x[3] == y[3]
            if not ok:
                raise Bad("the cells are %s instead of %s" % (cellshow(a), cellshow(e)))


def cellshow(segs):
    out = []
    for s in segs:
        k = s[3]
        r = "%s..%s" % (Z.show(s[1][1]), Z.show(s[2][1]))
        if k[0] == "orig":
            out.append("%s: as before%s" % (r, "" if k[1][1] == ZERO else " at +%s" % Z.show(k[1][1])))
        elif k[0] == "fill":
            out.append("%s: %s" % (r, "empty" if k[1] == NONE else "new"))
        else:
            out.append("%s: %s..%s packed" % (r, Z.show(k[1][1]), Z.show(Z.sub(k[2][1], ONE))))
    return "; ".join(out) or "none"


def static_ops(R):
    """OneDimensionalArray"""
    P, C = R.P, "OneDimensionalArray"

    def arr(T, I, st, cons):
        out = []
        for t, d in base(T, I, st, WHOLE + cons):
            a = t.new("inst", P.require_class(C), {"_size": ("num", S), "_data": d, "_dtype": DTYPE})
            t.ghost["arr"] = a
            out.append((t, a))
        return out

    def op(m, args, cons=()):
        def f(T, I, st):
            return [r for t, a in arr(T, I, st, list(cons)) for r in I.callmethod(t, a, m, list(args), None)]
        return f
    same = [seg(ZERO, Z.sub(S, ONE), orig())]
    inside = [Z.scale(J, -1), lt(J, S)]
    outside = [("position >= size", [le(S, J)]), ("position < 0", [Z.add(J, ONE)])]

    def put(v):
        return [seg(ZERO, Z.sub(J, ONE), orig()), seg(J, J, fill(v)), seg(Z.add(J, ONE), Z.sub(S, ONE), orig())]

    def holds(exp, result=None):
        def j(Fi, st, v):
            fine(v)
            if result is not None:
                iscell(Fi, st, v, result)
            cells(Fi, st, st.ghost["arr"], exp, S)
        return j

    def no(Fi, st, v):
        refused(v, ("IndexError",), "a position outside the array is accepted")
        cells(Fi, st, st.ghost["arr"], same, S)
    R.case(C, "__getitem__", "0 <= position < size", "any", ZERO, op("__getitem__", [("num", J)], inside), holds(same, J))
    R.case(C, "__setitem__", "0 <= position < size, an element", "any", ZERO, op("__setitem__", [("num", J), X], inside), holds(put(X)))
    R.case(C, "__setitem__", "0 <= position < size, None", "any", ZERO, op("__setitem__", [("num", J), NONE], inside), holds(put(NONE)))
    for nm, cons in outside:
        R.case(C, "__getitem__", nm, "any", ZERO, op("__getitem__", [("num", J)], cons), no)
        R.case(C, "__setitem__", nm, "any", ZERO, op("__setitem__", [("num", J), X], cons), no)
    R.case(C, "fill", "every size", "any", ZERO, op("fill", [X]), holds([seg(ZERO, Z.sub(S, ONE), fill(X))]))

    def ln(Fi, st, v):
        fine(v)
        if v[0] != "num" or Fi.differs(st, v[1], S):
            raise Bad("len is not the size")
    R.case(C, "__len__", "every size", "any", ZERO, op("__len__", []), ln)
    news(R, C, holds_new)


def new(P, C, args, kw=None, cons=()):
    """constructor call; the list given has S elements, none of them None"""
    def f(T, I, st):
        out = []
        for t, d in base(T, I, st, WHOLE + list(cons)):
            t.ghost["given"] = d
            out.extend(I.call(t, ("cls", P.require_class(C)), [d if a == "list" else a for a in args], dict(kw or {}), None))
        return out
    return f


def holds_new(exp, size):
    def j(Fi, st, v):
        fine(v)
        if v[0] != "o":
            raise Undecided("the constructor returns no object that is followed")
        cells(Fi, st, v, exp, size)
    return j


def clash(Fi, st, v):
    refused(v, ("ValueError",), "a size that is not the number of elements is accepted")


def news(R, C, judge):
    P = R.P
    whole = [seg(ZERO, Z.sub(S, ONE), orig())]
    n = ("num", S)
    R.case(C, "__new__", "a size", "dense", ZERO, new(P, C, [DTYPE, n]), judge([seg(ZERO, Z.sub(S, ONE), EMPTY)], S))
    if C == "OneDimensionalArray":
        R.case(C, "__new__", "a size and an initial value", "dense", ZERO, new(P, C, [DTYPE, n], {"init": INIT}),
               judge([seg(ZERO, Z.sub(S, ONE), fill(INIT))], S))
    R.case(C, "__new__", "a list", "dense", ZERO, new(P, C, [DTYPE, "list"]), judge(whole, S))
    R.case(C, "__new__", "a list and its size", "dense", ZERO, new(P, C, [DTYPE, "list", n]), judge(whole, S))
    R.case(C, "__new__", "the size of a list and the list", "dense", ZERO, new(P, C, [DTYPE, n, "list"]), judge(whole, S))
    for nm, cons in (("larger", lt(S, J)), ("smaller", lt(J, S))):
        R.case(C, "__new__", "a list and a %s size" % nm, "dense", ZERO, new(P, C, [DTYPE, "list", ("num", J)], None, [cons]), clash)
        R.case(C, "__new__", "a %s size and a list" % nm, "dense", ZERO, new(P, C, [DTYPE, ("num", J), "list"], None, [cons]), clash)


def dynamic_ops(R):
    P, C = R.P, "DynamicOneDimensionalArray"

    def op(m, args, cons=(), attr=False):
        def f(T, I, st):
            out = []
            for t, a in dyn(P, T, I, st, HOLES + list(cons), M):
                out.extend(I.getattr(t, a, m, None) if attr else I.callmethod(t, a, m, list(args), None))
            return out
        return f
    every = ("pk", ZERO, Z.add(L, ONE))

    def seq(exp, count):
        def j(Fi, st, v):
            fine(v)
            Fi.array(st, st.ghost["arr"], exp, count)
        return j

    def appended(Fi, st, v):
        fine(v)
        Fi.array(st, st.ghost["arr"], [every, ("el", X)], Z.add(M, ONE))
        T = Fi.T
        st = st.copy()
        d = Fi.data(st, st.ghost["arr"])
        for t in T.put(st, d, T.segs(st, d)):
            if not Fi.compact(t, d):
                for s in T.segs(t, d):
                    if s[3][0] == "fill" and s[3] != EMPTY and Fi.differs(t, s[1][1], Z.add(L, ONE)):
                        raise Bad("the element is put at position %s, not behind the last one" % Z.show(s[1][1]))
    R.case(C, "append", "every array", "holes", ZERO, op("append", [X]), appended)

    def deleted(Fi, st, v):
        fine(v)
        for t, was in Fi.T.filled(st.copy(), J):
            if was:
                Fi.array(t, t.ghost["arr"], [("pk", ZERO, J), ("pk", Z.add(J, ONE), Z.add(L, ONE))], Z.sub(M, ONE))
            else:
                Fi.array(t, t.ghost["arr"], [every], M)
                cells(Fi, t, t.ghost["arr"], [seg(ZERO, Z.sub(S, ONE), orig())], S)
    for nm, cons in (("a position up to the last filled one", [Z.scale(J, -1), le(J, L)]),
                     ("a position behind the last filled one", [lt(L, J)]), ("a negative position", [Z.add(J, ONE)])):
        R.case(C, "delete", nm, "holes", ZERO, op("delete", [("num", J)], cons), deleted)

    def size(Fi, st, v):
        fine(v)
        if v[0] != "num" or Fi.differs(st, v[1], S):
            raise Bad("the answer is not the size")
    R.case(C, "size", "every array", "holes", ZERO, op("size", [], (), True), size)
    R.case(C, "__len__", "every array", "holes", ZERO, op("__len__", []), size)

    def got(Fi, st, v):
        fine(v)
        iscell(Fi, st, v, J)
        Fi.array(st, st.ghost["arr"], [every], M)
    R.case(C, "__getitem__", "0 <= position < size", "holes", ZERO, op("__getitem__", [("num", J)], [Z.scale(J, -1), lt(J, S)]), got)
    for nm, cons in (("position >= size", [le(S, J)]), ("position < 0", [Z.add(J, ONE)])):
        def no(Fi, st, v):
            refused(v, ("IndexError",), "a position outside the array is accepted")
            Fi.array(st, st.ghost["arr"], [every], M)
        R.case(C, "__getitem__", nm, "holes", ZERO, op("__getitem__", [("num", J)], cons), no)

    def judge(exp, n):
        def j(Fi, st, v):
            fine(v)
            if v[0] != "o":
                raise Undecided("the constructor returns no object that is followed")
            cells(Fi, st, v, exp, n)
            full = exp[0][3][0] == "orig"
            Fi.array(st, v, [("pk", ZERO, S)] if full else [], S if full else ZERO, dense=True)
        return j
    news(R, C, judge)


def stack_ops(R):
    P, C = R.P, "ArrayStack"
    every = ("pk", ZERO, Z.add(L, ONE))

    def op(m, args, cons=(), attr=False):
        def f(T, I, st):
            out = []
            for t, a in dyn(P, T, I, st, LASTIN + list(cons), Z.add(L, ONE)):
                w = t.new("inst", P.require_class(C), {"items": a})
                t.ghost["w"] = w
                out.extend(I.getattr(t, w, m, None) if attr else I.callmethod(t, w, m, list(args), None))
            return out
        return f

    def holds(exp, count, result=None):
        def j(Fi, st, v):
            fine(v)
            if result is not None:
                result(Fi, st, v)
            stack(Fi, st, st.ghost["w"], exp, count)
        return j

    def stack(Fi, st, w, exp, count):
        a = Fi.field(st, w, "items")
        if a[0] != "o":
            raise Undecided("items is no array that is followed")
        Fi.array(st, a, exp, count, dense=True)

    def elem(p):
        return lambda Fi, st, v: iscell(Fi, st, v, p)

    def number(e):
        def f(Fi, st, v):
            for t, empty in Fi.I.split_le0(st.copy(), Z.add(L, ONE)):
                want = e(empty)
                if want[0] == "num" and (v[0] != "num" or Fi.differs(t, v[1], want[1])) or want[0] != "num" and v != want:
                    raise Bad("the answer is wrong for %s" % ("an empty stack" if empty else "a stack with elements"))
        return f
    some, none = [Z.scale(L, -1)], [Z.add(L, ONE)]
    n = Z.add(L, ONE)
    R.case(C, "push", "every stack", "dense", ZERO, op("push", [X]), holds([every, ("el", X)], Z.add(n, ONE)))
    R.case(C, "pop", "a stack with elements", "dense", ZERO, op("pop", [], some), holds([("pk", ZERO, L)], L, elem(L)))

    def no(Fi, st, v):
        refused(v, ("IndexError",), "an element is taken from an empty stack")
        stack(Fi, st, st.ghost["w"], [], ZERO)
    R.case(C, "pop", "an empty stack", "dense", ZERO, op("pop", [], none), no)
    R.case(C, "peek", "a stack with elements", "dense", ZERO, op("peek", [], some, True), holds([every], n, elem(L)))
    R.case(C, "__len__", "every stack", "dense", ZERO, op("__len__", []), holds([every], n, number(lambda g: ("num", n))))
    R.case(C, "is_empty", "every stack", "dense", ZERO, op("is_empty", [], (), True), holds([every], n, number(lambda g: TRUE if g else FALSE)))

    def made(exp, count):
        def j(Fi, st, v):
            fine(v)
            if v[0] != "o":
                raise Undecided("the constructor returns no object that is followed")
            stack(Fi, st, v, exp, count)
        return j
    R.case(C, "__new__", "no elements", "dense", ZERO, new(P, C, [NONE, DTYPE]), made([], ZERO))
    R.case(C, "__new__", "a list of elements", "dense", ZERO, new(P, C, ["list", DTYPE]), made([("pk", ZERO, S)], S))


def queue_ops(R):
    P, C = R.P, "ArrayQueue"
    every = ("pk", F, Z.add(L, ONE))
    n = Z.add(Z.sub(L, F), ONE)
    NOTHING = LASTIN + [Z.add(L, ONE)]
    WIN = [lt(L, S), le(F, L), Z.scale(F, -1)]

    def op(m, args, double, empty, attr=False, cons=()):
        def f(T, I, st):
            out = []
            k = ZERO if empty else n
            for t, a in dyn(P, T, I, st, (NOTHING if empty else WIN) + list(cons), k, FACTOR):
                w = t.new("inst", P.require_class(C), {
                    "items": a, "_double_ended": ("bool", double), "_front": num(-1) if empty else ("num", F),
                    "_rear": num(-1) if empty else ("num", L)})
                t.ghost["w"] = w
                out.extend(I.getattr(t, w, m, None) if attr else I.callmethod(t, w, m, list(args), None))
            return out
        return f

    def queue(Fi, st, w, exp, count):
        a = Fi.field(st, w, "items")
        if a[0] != "o":
            raise Undecided("items is no array that is followed")
        Fi.array(st, a, exp, count, none=True)
        Fi.window(st, w, a)

    def holds(exp, count, result=None):
        def j(Fi, st, v):
            fine(v)
            if result is not None:
                result(Fi, st, v)
            queue(Fi, st, st.ghost["w"], exp, count)
        return j

    def elem(p):
        return lambda Fi, st, v: iscell(Fi, st, v, p)

    def value(want):
        def f(Fi, st, v):
            if want[0] == "num" and (v[0] != "num" or Fi.differs(st, v[1], want[1])) or want[0] != "num" and v != want:
                raise Bad("the answer is wrong")
        return f

    def no(errors, what, exp, count):
        def j(Fi, st, v):
            refused(v, errors, what)
            queue(Fi, st, st.ghost["w"], exp, count)
        return j
    for dbl in (True, False):
        for empty in (True, False):
            low = Z.add(L, ONE) if empty else F
            nm = "%s, %s" % ("an empty queue" if empty else "a queue with elements", "double ended" if dbl else "single ended")
            old, k = ([], ZERO) if empty else ([every], n)

            def case(m, args, j, attr=False):
                R.case(C, m, nm, "dense", low, op(m, args, dbl, empty, attr), j)
            case("append", [X], holds(old + [("el", X)], Z.add(k, ONE)))
            if empty:
                case("popleft", [], no(("IndexError",), "an element is taken from an empty queue", old, k))
            else:
                case("popleft", [], holds([("pk", Z.add(F, ONE), Z.add(L, ONE))], Z.sub(n, ONE), elem(F)))
            single = no(("NotImplementedError",), "a single ended queue accepts the operation", old, k)
            case("appendleft", [X], holds([("el", X)] + old, Z.add(k, ONE)) if dbl else single)
            if not dbl:
                case("pop", [], single)
            elif empty:
                case("pop", [], no(("IndexError",), "an element is taken from an empty queue", old, k))
            else:
                case("pop", [], holds([("pk", F, L)], Z.sub(n, ONE), elem(L)))
            case("__len__", [], holds(old, k, value(("num", k))))
            case("is_empty", [], holds(old, k, value(TRUE if empty else FALSE)), True)
            if not empty:
                case("front", [], holds(old, k, value(("num", F))), True)
                case("rear", [], holds(old, k, value(("num", L))), True)

    def made(exp, count):
        def j(Fi, st, v):
            fine(v)
            if v[0] != "o":
                raise Undecided("the constructor returns no object that is followed")
            queue(Fi, st, v, exp, count)
        return j
    for dbl in (TRUE, FALSE):
        R.case(C, "__new__", "no elements", "dense", ZERO, new(P, C, [NONE, DTYPE, dbl]), made([], ZERO))
        R.case(C, "__new__", "a list of elements", "dense", ZERO, new(P, C, ["list", DTYPE, dbl], None, [lt(ZERO, S)]), made([("pk", ZERO, S)], S))


def check_arrays(rep, tier):
    prog = Program()
    rep.rule("after an operation the filled cells of the array, read from the first to the last, are exactly the sequence its contract names; "
             "the size, the number of elements, the last filled position and the ends agree with it; positions outside are refused")
    R = Runner(rep, prog)
    static_ops(R)
    dynamic_ops(R)
    stack_ops(R)
    queue_ops(R)
    rep.count("final_states", R.states)
    rep.count("cases", R.cases)
    rep.count("abstract_steps", R.steps)
    rep.counts["functions_interpreted"] = len(R.funcs)
    rep.sample(sorted(R.funcs))
    return rep
