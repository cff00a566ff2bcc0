"""Engine 2: shape analysis.

An abstract interpreter over sets of abstract states.  A state holds exact information about the
few nodes that program variables refer to or whose links were changed; every other node of the
structure is summarised by the structure's invariant and is materialised on demand (theory
objects, see sh_lists / sh_trees).  Numbers are linear terms constrained by a zone.  Loops are
solved by iteration to a fixpoint over canonical states (objects renamed, numbers generalised to
their common differences and joined), so the result covers structures of every size and every
argument.  Whatever the engine does not model raises Undecided: no verdict is given then."""
import ast
import copy

from . import zone as Z
from .program import FuncInfo, ClassInfo

NONE = ("none",)
TRUE, FALSE = ("bool", True), ("bool", False)
TOP = ("top",)


class Undecided(Exception):
    pass


# a construct the engine stumbles over is not decided either
GIVEUP = (Undecided, RecursionError, LookupError, AttributeError, TypeError, ValueError)


class Exc:
    """a raised exception travelling as a value"""
    def __init__(self, name, where):
        self.name, self.where = name, where

    def __repr__(self):
        return "Exc(%s@%s)" % (self.name, self.where)


class Obj:
    __slots__ = ("kind", "cls", "fields", "items", "mod", "w")

    def __init__(self, kind, cls=None, fields=None, items=None):
        self.kind, self.cls = kind, cls
        self.fields = fields if fields is not None else {}
        self.items = items
        self.mod = set()
        self.w = {}

    def copy(self):
        o = Obj(self.kind, self.cls, dict(self.fields), None if self.items is None else list(self.items))
        o.mod = set(self.mod)
        o.w = dict(self.w)
        return o


class _Numbers(Exception):
    pass


class Frame:
    __slots__ = ("fi", "vars", "first")

    def __init__(self, fi, vars_, first=None):
        self.fi, self.vars, self.first = fi, vars_, first

    def copy(self):
        return Frame(self.fi, dict(self.vars), self.first)


class State:
    def __init__(self):
        self.frames, self.objs, self.zone = [], {}, Z.Zone()
        self.ghost, self.facts, self.tmp = {}, frozenset(), []
        self.nid, self.nsym = 0, 0
        self.path = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = {k: o.copy() for k, o in self.objs.items()}
        s.zone = self.zone.copy()
        s.ghost, s.facts, s.tmp = dict(self.ghost), self.facts, list(self.tmp)
        s.nid, s.nsym, s.path = self.nid, self.nsym, self.path
        return s

    def new(self, kind, cls=None, fields=None, items=None):
        i = self.nid
        self.nid += 1
        self.objs[i] = Obj(kind, cls, fields, items)
        return ("o", i)

    def fresh(self, base="v"):
        self.nsym += 1
        return "%s%d" % (base, self.nsym)


def is_num(v):
    return v[0] == "num"


def num(c):
    return ("num", Z.const(c))


class Shape:
    MAXSTEPS = 150000
    MAXLOOP = 600
    MAXDEPTH = 40

    def __init__(self, prog, theory):
        self.P, self.T = prog, theory
        theory.I = self
        self.steps = 0
        self.visited = set()
        self.loops = 0
        self.unroll, self.cut = None, False

    # ------------------------------------------------------------ helpers
    def where(self, st, node):
        f = st.frames[-1].fi if st.frames else None
        return "%s:%d" % (f.module.path if f else "?", getattr(node, "lineno", 0))

    def alts(self, st, n):
        """n independent copies of a state"""
        return [st] + [st.copy() for _ in range(n - 1)]

    def assume(self, st, t):
        return st.zone.assume_le0(t)

    def split_le0(self, st, t):
        """-> [(state, t<=0?)]"""
        d = st.zone.decide_le0(t)
        if d is not None:
            return [(st, d)]
        a, b = self.alts(st, 2)
        out = []
        if self.assume(a, t):
            out.append((a, True))
        if self.assume(b, Z.add(Z.scale(t, -1), Z.const(1))):
            out.append((b, False))
        return out

    def split_sign(self, st, t):
        """-> [(state, sign of t)]"""
        out = []
        for s, le in self.split_le0(st, t):
            if not le:
                out.append((s, 1))
                continue
            for s2, ge in self.split_le0(s, Z.scale(t, -1)):
                out.append((s2, 0 if ge else -1))
        return out

    # ------------------------------------------------------------ canonical form
    def canon(self, st, newslots=None, live=None):
        omap, kmap, slots, order = {}, {}, [], []

        def val(v):
            if not isinstance(v, tuple) or not v:
                return v
            t = v[0]
            if t == "o":
                if v[1] not in omap:
                    omap[v[1]] = len(order)
                    order.append(v[1])
                return ("o", omap[v[1]])
            if t == "num":
                i = len(slots)
                slots.append(v[1])
                return ("num", newslots[i] if newslots is not None else v[1])
            if t == "key":
                if v[1][0].isupper():
                    return v
                if v[1] not in kmap:
                    kmap[v[1]] = "k%d" % len(kmap)
                return ("key", kmap[v[1]])
            return tuple(val(x) for x in v)

        n = State()
        for fi, f in enumerate(st.frames):
            keep = live if fi == len(st.frames) - 1 and live is not None else None
            n.frames.append(Frame(f.fi, {k: val(f.vars[k]) for k in sorted(f.vars) if keep is None or k in keep or k[0] == "."},
                                  val(f.first) if f.first is not None else None))
        n.tmp = [val(v) for v in st.tmp]
        n.ghost = {k: val(st.ghost[k]) for k in sorted(st.ghost)}
        extra = list(self.T.roots(st))
        objs = []
        i = 0
        while True:
            while i < len(order):
                o = st.objs[order[i]]
                i += 1
                c = Obj(o.kind, o.cls, {k: val(o.fields[k]) for k in sorted(o.fields)},
                        None if o.items is None else [val(x) for x in o.items])
                c.mod, c.w = set(o.mod), dict(o.w)
                objs.append(c)
            if extra:
                val(("o", extra.pop(0)))
            else:
                break
        n.objs = dict(enumerate(objs))
        n.nid = len(objs)
        fs = set()

        def known(x):
            if isinstance(x, tuple) and x:
                if x[0] == "o":
                    return x[1] in omap
                if x[0] == "key":
                    return x[1] in kmap or x[1][0].isupper()
                return all(known(y) for y in x)
            return True
        for f in st.facts:
            if known(f):
                fs.add(tuple(val(x) if isinstance(x, tuple) else x for x in f))
        n.facts = frozenset(fs)
        n.zone, n.nsym, n.path = st.zone.copy(), st.nsym, st.path

        def blank(v):
            if isinstance(v, tuple):
                if v and v[0] == "num":
                    return ("num",)
                return tuple(blank(x) for x in v)
            return v if not isinstance(v, (FuncInfo, ClassInfo)) else id(v)

        sk = (tuple((id(f.fi), tuple((k, blank(v)) for k, v in f.vars.items()), blank(f.first)) for f in n.frames),
              tuple(blank(v) for v in n.tmp), tuple((k, blank(v)) for k, v in n.ghost.items()),
              tuple((o.kind, id(o.cls), tuple((k, blank(v)) for k, v in o.fields.items()),
                     None if o.items is None else tuple(blank(x) for x in o.items), tuple(sorted(o.mod))) for o in objs),
              tuple(sorted(map(repr, n.facts))))
        return sk, slots, n

    @staticmethod
    def _perm(l):
        return all(s[0].isupper() for s, _ in l[0])

    def common(self, a, za, b, zb):
        """a number of the initial state that equals a in one state and b in the other, or None"""
        if not (self.T.symbolic_lists and self._perm(a) and self._perm(b)) or a == b:
            return None
        for p in sorted(x for x in za.syms & zb.syms if x.isupper()):
            for d in (Z.sym(p), Z.scale(Z.sym(p), -1)):
                c = Z.sub(a, d)
                x = za.value(c)
                if x is not None and x == zb.value(Z.sub(b, d)):
                    return Z.add(d, Z.const(x))
        return None

    def generalise(self, old, slots, st, base=None):
        """old: (slots, zone) or None -> (slots, zone, changed)"""
        if old is None:
            m, z = {}, st.zone
            new = []
            for l in slots:
                for s, _ in l[0]:
                    if not s[0].isupper() and s not in m:
                        m[s] = "w%d" % len(m)
                new.append((tuple(sorted((m.get(s, s), k) for s, k in l[0])), l[1]))
            z = z.copy()
            z.restrict(set(m) | {s for s in z.syms if s[0].isupper()})
            return new, z.rename(m), True
        oslots, ozone, n = old
        reps, new, nz = [], [], st.zone
        for a, b in zip(oslots, slots):
            if self._perm(a) and (a == b or nz.decide_eq0(Z.sub(a, b)) is True):
                new.append(a)
                continue
            if self._perm(b) and ozone.decide_eq0(Z.sub(a, b)) is True:
                new.append(b)
                continue
            both = self.common(a, ozone, b, nz)
            if both is not None:
                new.append(both)
                continue
            for i, (ra, rb) in enumerate(reps):
                da, sa = Z.sub(a, ra), Z.add(a, ra)
                both = self.common(da, ozone, Z.sub(b, rb), nz)
                if both is not None:
                    new.append(Z.add(Z.sym("w%d" % i), both))
                    break
                if self._perm(da) and da == Z.sub(b, rb):
                    new.append(Z.add(Z.sym("w%d" % i), da))
                    break
                if self._perm(sa) and sa == Z.add(b, rb):      # counts down while the other counts up
                    new.append(Z.sub(sa, Z.sym("w%d" % i)))
                    break
            else:
                reps.append((a, b))
                new.append(Z.sym("w%d" % (len(reps) - 1)))
        perm = sorted(s for s in ozone.syms | nz.syms if s[0].isupper() or s == "0")
        names = perm + ["w%d" % i for i in range(len(reps))]

        def terms(which):
            return [Z.const(0) if p == "0" else Z.sym(p) for p in perm] + [r[which] for r in reps]
        ta, tb = terms(0), terms(1)
        z = Z.Zone()
        z.syms |= set(names)
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                if i == j:
                    continue
                ua, ub = ozone.upper(Z.sub(ta[i], ta[j])), nz.upper(Z.sub(tb[i], tb[j]))
                if ua is None or ub is None:
                    continue
                if ub > ua:
                    if n >= 3:
                        # widening; what held before the loop about the initial numbers still holds
                        u0 = base.get(x, y) if base is not None and i < len(perm) and j < len(perm) else None
                        if u0 is None or ub > u0:
                            u0 = min((t for t in self.T.thresholds if t >= ub), default=None)
                        if u0 is None:
                            continue
                        ub = u0
                    ua = ub
                z.b[(x, y)] = ua
        z.extra = ozone.extra & nz.extra
        changed = not (list(new) == list(oslots) and z.key() == ozone.key())
        return new, z, changed

    def graph(self, st, step, live, loop):
        """like fix, for states without numbers that change: what a loop does from a state at its head is computed once"""
        g = self.__dict__.setdefault("_graph", {})
        res, work, out = set(), [], []

        def enter(st):
            keys = []
            for t in self.T.fold(st):
                sk, slots, cst = self.canon(t, live=live)
                k = (loop, sk, tuple(slots), t.zone.key())
                if any(not self._perm(x) for x in slots):
                    raise _Numbers()
                keys.append(k)
                if k not in g:
                    g[k] = None
                    cst.zone, cst.nsym = t.zone.copy(), t.nsym
                    todo.append((k, cst))
            return keys
        todo = []
        start = enter(st)
        while todo:
            k, cst = todo.pop()
            outs, succ = [], []
            try:
                for s2, ctl in step(cst):
                    if ctl == "next":
                        succ += enter(s2)
                    else:
                        outs.append((s2, ctl))
            except Exception:
                for x in [x for x, v in g.items() if v is None]:
                    del g[x]
                raise
            g[k] = (self.dedup(outs), succ)
            if len(g) > 20000:
                raise Undecided("loop does not converge")
        work = list(start)
        while work:
            k = work.pop()
            if k not in res:
                res.add(k)
                outs, succ = g[k]
                out += [(t.copy(), c) for t, c in outs]
                work += succ
        return self.dedup(out)

    def fix(self, st, step, live=None, loop=None):
        """step(state) -> [(state, ctl)]; ctl 'next' iterates"""
        self.loops += 1
        if self.unroll is not None:
            return self.unrolled(st, step)
        if self.T.memo and loop is not None:
            try:
                return self.graph(st.copy(), step, live, loop)
            except _Numbers:
                pass
        table, work, out, n, base = {}, [st], [], 0, st.zone.copy()
        while work:
            st = work.pop()
            if n > self.MAXLOOP:
                raise Undecided("loop does not converge")
            for st in self.T.fold(st):
                sk, slots, cst = self.canon(st, live=live)
                sk = (sk, self.T.tag(cst))
                old = table.get(sk)
                new, z, changed = self.generalise(old, slots, cst, base)
                if old is not None and not changed:
                    continue
                n += 1
                table[sk] = (new, z, (old[2] + 1) if old else 0)
                cst.zone = z
                cur = self.canon(cst, new, live=live)[2]
                cur.zone = z.copy()
                cur.nsym = st.nsym
                for s2, ctl in step(cur):
                    if ctl == "next":
                        work.append(s2)
                    else:
                        out.append((s2, ctl))
        return out

    def reach(self, st):
        """ids of the objects program variables, temporaries and theory roots lead to"""
        seen, work = set(), []

        def val(v):
            if isinstance(v, tuple) and v:
                if v[0] == "o":
                    if v[1] not in seen:
                        seen.add(v[1])
                        work.append(v[1])
                else:
                    for x in v:
                        val(x)
        for f in st.frames:
            for v in f.vars.values():
                val(v)
            val(f.first)
        for v in st.tmp:
            val(v)
        for v in st.ghost.values():
            val(v)
        for i in self.T.roots(st):
            val(("o", i))
        while work:
            o = st.objs[work.pop()]
            for v in o.fields.values():
                val(v)
            for v in o.items or ():
                val(v)
        return seen

    def unrolled(self, st, step):
        """the first iterations without joining anything: confirms what the fixpoint reports"""
        cur, out = self.T.rebase(st), []
        for _ in range(self.unroll):
            nxt = []
            for t in cur:
                for u, ctl in step(t):
                    if ctl == "next":
                        nxt.extend((x, None) for x in self.T.rebase(u))
                    else:
                        out.append((u, ctl))
            cur = [t for t, _ in self.dedup(nxt)]
            if not cur:
                break
        self.cut = self.cut or bool(cur)
        return out

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        cur = [(st, None)]
        for s in body:
            nxt = []
            for st, ctl in cur:
                if ctl is not None:
                    nxt.append((st, ctl))
                else:
                    nxt.extend(self.stmt(s, st))
            cur = self.dedup(nxt)
        return cur

    def dedup(self, cur):
        if len(cur) < 100:
            return cur
        seen, out = {}, []
        for st, ctl in cur:
            if ctl is not None:
                out.append((st, ctl))
                continue
            sk, slots, n = self.canon(st)
            sl, z, _ = self.generalise(None, slots, n)
            k = (sk, tuple(sl), z.key())
            if k in seen:
                continue
            seen[k] = True
            out.append((st, ctl))
        if len(out) > 4000:
            raise Undecided("too many states")
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s at %s" % (type(s).__name__, self.where(st, s)))
        return m(s, st)

    @staticmethod
    def ctl(pairs):
        return [(st, ("exc", v.name, v.where)) if isinstance(v, Exc) else (st, None) for st, v in pairs]

    def s_Pass(self, s, st):
        return [(st, None)]

    s_Import = s_Pass

    def s_ImportFrom(self, s, st):
        f = st.frames[-1]
        if f.fi is not None:
            for a in s.names:
                b = self.P.lookup(self.P.resolve_from(f.fi.module, s), a.name)
                v = self.binding(b, a.name) if b is not None else None
                if v is not None:
                    f.vars[a.asname or a.name] = v
        return [(st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return self.ctl(self.ev(s.value, st))

    def s_Break(self, s, st):
        return [(st, ("brk",))]

    def s_Continue(self, s, st):
        return [(st, ("cont",))]

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(t, ("exc", v.name, v.where) if isinstance(v, Exc) else ("ret", v)) for t, v in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        n = s.exc
        if isinstance(n, ast.Call):
            n = n.func
        name = n.id if isinstance(n, ast.Name) else "Exception"
        v = st.frames[-1].vars.get(name)
        if v is not None and v[0] == "excobj":
            name = v[1]
        return [(st, ("exc", name, self.where(st, s)))]

    def s_Assert(self, s, st):
        out = []
        for t, b in self.cond(s.test, st):
            if isinstance(b, Exc):
                out.append((t, ("exc", b.name, b.where)))
            else:
                out.append((t, None if b else ("exc", "AssertionError", self.where(t, s))))
        return out

    def s_FunctionDef(self, s, st):
        fi = self.func_of(s, st)
        st.frames[-1].vars[s.name] = ("fn", fi, len(st.frames) - 1)
        return [(st, None)]

    def func_of(self, node, st):
        c = self.__dict__.setdefault("_fi", {})
        f = st.frames[-1].fi
        if node not in c:
            c[node] = FuncInfo(node, f.module, "%s.<locals>.%s" % (f.qual, getattr(node, "name", "<lambda>")), f.cls)
        return c[node]

    def s_Assign(self, s, st):
        out = []
        # parallel assignment evaluates all values first (evs keeps them in the state)
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                and len(s.targets[0].elts) == len(s.value.elts):
            for t, vs in self.evs(s.value.elts, st):
                if isinstance(vs, Exc):
                    out.append((t, ("exc", vs.name, vs.where)))
                else:
                    out.extend(self.assign_many(s.targets[0].elts, vs, t, s))
            return out
        for t, v in self.ev(s.value, st):
            if isinstance(v, Exc):
                out.append((t, ("exc", v.name, v.where)))
            else:
                out.extend(self.assign_many(s.targets, [v] * len(s.targets), t, s))
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        return self.s_Assign(ast.copy_location(ast.Assign([s.target], s.value), s), st)

    def assign_many(self, targets, vals, st, node):
        """assigns left to right; pending values live in st.tmp"""
        st.tmp.extend(reversed(vals))
        cur = [(st, None)]
        for k, tg in enumerate(targets):
            nxt = []
            for t, c in cur:
                if c is not None:
                    nxt.append((t, c))
                    continue
                v = t.tmp.pop()
                nxt.extend(self.assign(tg, v, t, node))
            cur = nxt
        out = []
        for t, c in cur:
            if c is not None:
                t.tmp = t.tmp[:len(t.tmp)]
            out.append((t, c))
        return out

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            st.frames[-1].vars[tg.id] = v
            return [(st, None)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            items = self.exact_items(v, st)
            if items is None or len(items) != len(tg.elts):
                if v == TOP:
                    items = [TOP] * len(tg.elts)
                else:
                    raise Undecided("unpacking at %s" % self.where(st, node))
            return self.assign_many(tg.elts, items, st, node)
        if isinstance(tg, ast.Attribute):
            st.tmp.append(v)
            out = []
            for t, b in self.ev(tg.value, st):
                v = t.tmp.pop()
                if isinstance(b, Exc):
                    out.append((t, ("exc", b.name, b.where)))
                    continue
                out.extend(self.ctl(self.setattr(t, b, tg.attr, v, node)))
            return out
        if isinstance(tg, ast.Subscript):
            st.tmp.append(v)
            out = []
            if isinstance(tg.slice, ast.Slice) and self.T.symbolic_lists and tg.slice.step is None:
                none = ast.copy_location(ast.Constant(None), tg)
                for t, bi in self.evs([tg.value, tg.slice.lower or none, tg.slice.upper or none], st):
                    v = t.tmp.pop()
                    if isinstance(bi, Exc):
                        out.append((t, ("exc", bi.name, bi.where)))
                    else:
                        out.extend((u, None) for u in self.T.setslice(t, bi[0], bi[1], bi[2], v, node))
                return out
            for t, bi in self.evs([tg.value, tg.slice], st):
                v = t.tmp.pop()
                if isinstance(bi, Exc):
                    out.append((t, ("exc", bi.name, bi.where)))
                    continue
                out.extend(self.ctl(self.setitem(t, bi[0], bi[1], v, node)))
            return out
        raise Undecided("assignment target")

    def s_AugAssign(self, s, st):
        if isinstance(s.target, ast.Name):
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
            e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
            return self.s_Assign(ast.copy_location(ast.Assign([s.target], e), s), st)
        if isinstance(s.target, ast.Attribute):
            out = []
            for t, bv in self.evs([s.target.value, s.value], st):
                if isinstance(bv, Exc):
                    out.append((t, ("exc", bv.name, bv.where)))
                    continue
                t.tmp.extend(bv)
                for u, cur in self.getattr(t, bv[0], s.target.attr, s):
                    val, base = u.tmp.pop(), u.tmp.pop()
                    if isinstance(cur, Exc):
                        out.append((u, ("exc", cur.name, cur.where)))
                        continue
                    u.tmp.append(base)
                    for w, r in self.binop(s.op, cur, val, u, s):
                        base = w.tmp.pop()
                        if isinstance(r, Exc):
                            out.append((w, ("exc", r.name, r.where)))
                            continue
                        out.extend(self.ctl(self.setattr(w, base, s.target.attr, r, s)))
            return out
        load = ast.copy_location(ast.Subscript(s.target.value, s.target.slice, ast.Load()), s.target)
        e = ast.copy_location(ast.BinOp(load, s.op, s.value), s)
        return self.s_Assign(ast.copy_location(ast.Assign([s.target], e), s), st)

    def s_If(self, s, st):
        out = []
        for t, b in self.cond(s.test, st):
            if isinstance(b, Exc):
                out.append((t, ("exc", b.name, b.where)))
                continue
            t.path = t.path + ("%d:%s" % (s.lineno, "then" if b else "else"),)
            out.extend(self.block(s.body if b else s.orelse, t))
        return out

    def nodes_of(self, f):
        c = self.__dict__.setdefault("_nodes", {})
        if f not in c:
            c[f] = set(ast.walk(f.node))
        return c[f]

    def live_names(self, fn, s):
        """names that may be read in fn once control is at node s (branches not taken are left out)"""
        out = set()

        def loads(n):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    out.add(x.target.id)
                elif isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    out.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))

        def has(n):
            return any(x is s for x in ast.walk(n))

        def block(body):
            for i, b in enumerate(body):
                if has(b):
                    for x in body[i + 1:]:
                        loads(x)
                    return stmt(b)

        def stmt(b):
            if isinstance(b, (ast.Expr, ast.Return, ast.Assign)) and b.value is s and isinstance(s, ast.Call):
                for x in getattr(b, "targets", ()):     # the arguments have been evaluated
                    loads(x)
                return
            if b is s or not isinstance(b, (ast.If, ast.With, ast.Try)):
                return loads(b)         # simple statements, loops
            if isinstance(b, ast.If) and not has(b.test):
                return block(b.body if any(has(x) for x in b.body) else b.orelse)
            if isinstance(b, ast.With) and any(has(x) for x in b.body):
                return block(b.body)
            if isinstance(b, ast.Try):
                for x in b.handlers + b.orelse + b.finalbody:
                    loads(x)
                if any(has(x) for x in b.body):
                    return block(b.body)
            return loads(b)
        block(fn.body)
        for x in ast.walk(fn):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                loads(x)
                out.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
        return out

    def live_at(self, s, st):
        """variables that may still be read once control is at the loop s"""
        f = st.frames[-1].fi
        c = self.__dict__.setdefault("_live", {})
        k = (f, s)
        if k not in c:
            c[k] = None if isinstance(f.node, ast.Lambda) or s not in self.nodes_of(f) else self.live_names(f.node, s)
        return c[k]

    def s_While(self, s, st):
        def step(st):
            out = []
            for t, b in self.cond(s.test, st):
                if isinstance(b, Exc):
                    out.append((t, ("exc", b.name, b.where)))
                elif not b:
                    out.append((t, ("end",)))
                else:
                    for u, c in self.block(s.body, t):
                        out.append((u, "next" if c is None or c[0] == "cont" else c))
            return out
        return self.after_loop(self.fix(st, step, self.live_at(s, st), (s, 0)), s)

    def after_loop(self, outs, s):
        res = []
        for t, c in outs:
            if c == ("end",):
                if s.orelse:
                    res.extend(self.block(s.orelse, t))
                else:
                    res.append((t, None))
            elif c == ("brk",):
                res.append((t, None))
            else:
                res.append((t, c))
        return self.dedup(res)

    def s_For(self, s, st):
        out = []
        for t, it in self.ev(s.iter, st):
            if isinstance(it, Exc):
                out.append((t, ("exc", it.name, it.where)))
                continue
            if it[0] == "range":
                out.extend(self.for_range(s, t, it))
                continue
            if self.T.isbag(t, it):
                out.extend(self.for_bag(s, t, it))
                continue
            items = self.exact_items(it, t)
            if items is None and self.T.iterable(t, it):
                out.extend(self.for_list(s, t, it))
                continue
            if items is None:
                raise Undecided("iteration at %s" % self.where(t, s))
            hid = ".it%d" % s.lineno
            t.frames[-1].vars[hid] = ("tup", tuple(items))
            cur, done = [t], []
            while cur:
                nxt = []
                for u in cur:
                    rest = u.frames[-1].vars[hid][1]
                    if not rest:
                        del u.frames[-1].vars[hid]
                        done.append((u, ("end",)))
                        continue
                    u.frames[-1].vars[hid] = ("tup", rest[1:])
                    for w, c in self.assign(s.target, rest[0], u, s):
                        if c is not None:
                            done.append((w, c))
                            continue
                        for x, c in self.block(s.body, w):
                            if c is None or c[0] == "cont":
                                nxt.append(x)
                            else:
                                done.append((x, c))
                cur = nxt
            out.extend(self.after_loop(done, s))
        return out

    def for_range(self, s, st, r):
        hid, hi, stepv = ".i%d" % s.lineno, ".e%d" % s.lineno, r[3]
        st.frames[-1].vars[hid], st.frames[-1].vars[hi] = ("num", r[1]), ("num", r[2])

        def step(st):
            v = st.frames[-1].vars
            i, e = v[hid][1], v[hi][1]
            t = Z.add(Z.sub(i, e), Z.const(1)) if stepv > 0 else Z.add(Z.sub(e, i), Z.const(1))
            out = []
            for u, inside in self.split_le0(st, t):
                if not inside:
                    out.append((u, ("end",)))
                    continue
                u.frames[-1].vars[hid] = ("num", Z.add(i, Z.const(stepv)))
                for w, c in self.assign(s.target, ("num", i), u, s):
                    for x, c in self.block(s.body, w):
                        out.append((x, "next" if c is None or c[0] == "cont" else c))
            return out
        live = self.live_at(s, st)
        return self.after_loop(self.fix(st, step, live, (s, stepv)), s)

    def for_list(self, s, st, it):
        """iteration over a list of symbolic length: elements by position, the length read at every step"""
        hid, src = ".i%d" % s.lineno, ".s%d" % s.lineno
        st.frames[-1].vars[hid], st.frames[-1].vars[src] = num(0), it

        def step(st):
            v = st.frames[-1].vars
            i, b = v[hid][1], v[src]
            out = []
            for u, inside in self.split_le0(st, Z.add(Z.sub(i, self.T.iterlen(st, b)), Z.const(1))):
                if not inside:
                    out.append((u, ("end",)))
                    continue
                u.frames[-1].vars[hid] = ("num", Z.add(i, Z.const(1)))
                for w, x in self.T.iterget(u, b, i, s):
                    for w, c in self.assign(s.target, x, w, s):
                        for x2, c in self.block(s.body, w):
                            out.append((x2, "next" if c is None or c[0] == "cont" else c))
            return out
        return self.after_loop(self.fix(st, step, self.live_at(s, st), (s, 1)), s)

    def for_bag(self, s, st, it):
        """iteration in any order over something whose elements are not in a known order (or number)"""
        hid, src = ".i%d" % s.lineno, ".s%d" % s.lineno
        rest = self.T.candidates(st, it)
        st.frames[-1].vars[hid], st.frames[-1].vars[src] = ("tup", rest), it

        def step(st):
            v = st.frames[-1].vars
            out = []
            for u, x, left in self.T.advance(st, v[src], v[hid][1], s):
                if isinstance(x, Exc):
                    out.append((u, ("exc", x.name, x.where)))
                    continue
                if left is None:
                    u.frames[-1].vars.pop(hid), u.frames[-1].vars.pop(src)
                    out.append((u, ("end",)))
                    continue
                u.frames[-1].vars[hid] = ("tup", left)
                if x is None:
                    out.append((u, "next"))
                    continue
                for w, c in self.assign(s.target, x, u, s):
                    if c is not None:
                        out.append((w, c))
                        continue
                    for x2, c in self.block(s.body, w):
                        out.append((x2, "next" if c is None or c[0] == "cont" else c))
            return out
        return self.after_loop(self.fix(st, step, self.live_at(s, st), (s, 1)), s)

    def e_DictComp(self, e, st):
        """as the loop that stores into a fresh dictionary"""
        if not self.comp_ok(e) or not self.T.dictcomps:
            raise Undecided("comprehension at %s" % self.where(st, e))
        out = []
        for t, it in self.ev(e.generators[0].iter, st):
            if isinstance(it, Exc):
                out.append((t, it))
                continue
            out.extend(self.comp_loop(e, t, it))
        return out

    def comp_loop(self, e, st, it):
        """a comprehension over something of symbolic length, as the loop that appends to a fresh list"""
        c = self.__dict__.setdefault("_comp", {})
        if e not in c:
            g = copy.deepcopy(e.generators[0])
            isd = isinstance(e, ast.DictComp)
            elt = ast.Tuple([copy.deepcopy(e.key), copy.deepcopy(e.value)], ast.Load()) if isd else copy.deepcopy(e.elt)
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for root in [g.target, elt] + g.ifs:
                for n in ast.walk(root):
                    if isinstance(n, ast.Name) and n.id in names:
                        n.id = ".c" + n.id
            acc = ".lc%d_%d" % (e.lineno, e.col_offset)
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [elt], []))
            if isd:
                body = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), elt.elts[0], ast.Store())], elt.elts[1])
            for t in reversed(g.ifs):
                body = ast.If(t, [body], [])
            loop = ast.For(g.target, ast.Name(".src" + acc, ast.Load()), [body], [])
            ast.copy_location(loop, e)
            for n in ast.walk(loop):
                ast.copy_location(n, e) if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)) else None
            c[e] = (loop, acc, [".c" + n for n in names])
        loop, acc, names = c[e]
        isd = isinstance(e, ast.DictComp)
        r = None if isd else self.comp_const(e, st, it)
        if r is not None:
            return r
        v = st.frames[-1].vars
        v[acc] = st.new("dict", None, {"@pairs": ()}) if isd else st.new("list", None, None, [])
        v[".src" + acc] = it
        out = []
        for t, ctl in self.s_For(loop, st):
            v = t.frames[-1].vars
            r = v.pop(acc)
            src = v.pop(".src" + acc, None)
            for n in names + [".i%d" % e.lineno, ".e%d" % e.lineno, ".s%d" % e.lineno]:
                v.pop(n, None)
            if ctl is None:
                self.T.made(t, e, r, src)
                out.append((t, r))
            elif ctl[0] == "exc":
                out.append((t, Exc(ctl[1], ctl[2])))
            else:
                raise Undecided("comprehension at %s" % self.where(t, e))
        return out

    def comp_const(self, e, st, it):
        """[x for _ in range(n)] where x is the same at every step"""
        g = e.generators[0]
        if g.ifs or it[0] != "range" or it[3] != 1 or not isinstance(g.target, ast.Name):
            return None
        if any(isinstance(n, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.NamedExpr)) for n in ast.walk(e.elt)) \
                or any(isinstance(n, ast.Name) and n.id == g.target.id for n in ast.walk(e.elt)):
            return None
        out = []
        for t, v in self.ev(e.elt, st):
            if isinstance(v, Exc):
                return None
            out.extend(self.T.repeat(t, v, Z.sub(it[2], it[1])))
        return out

    def s_Try(self, s, st):
        out = []
        for t, c in self.block(s.body, st):
            if c is not None and c[0] == "exc":
                for h in s.handlers:
                    names = [] if h.type is None else [n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)]
                    if h.type is None or c[1] in names or "Exception" in names:
                        out.extend(self.block(h.body, t))
                        break
                else:
                    out.append((t, c))
            elif c is None and s.orelse:
                out.extend(self.block(s.orelse, t))
            else:
                out.append((t, c))
        if s.finalbody:
            res = []
            for t, c in out:
                for u, d in self.block(s.finalbody, t):
                    res.append((u, d if d is not None else c))
            return res
        return out

    def s_Delete(self, s, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice):
            out = []
            for t, bi in self.evs([s.targets[0].value, s.targets[0].slice], st):
                if isinstance(bi, Exc):
                    out.append((t, ("exc", bi.name, bi.where)))
                    continue
                r = self.T.delitem(t, bi[0], bi[1], s)
                if r is None:
                    raise Undecided("del at %s" % self.where(t, s))
                out.extend(self.ctl(r))
            return out
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in st.frames[-1].vars:
            del st.frames[-1].vars[s.targets[0].id]
            return [(st, None)]
        raise Undecided("del at %s" % self.where(st, s))

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """-> [(state, bool | Exc)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(t, b if isinstance(b, Exc) else not b) for t, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            want = isinstance(e.op, ast.Or)
            cur, out = [st], []
            for v in e.values:
                nxt = []
                for t in cur:
                    for u, b in self.cond(v, t):
                        if isinstance(b, Exc) or b == want:
                            out.append((u, b))
                        else:
                            nxt.append(u)
                cur = nxt
            return out + [(t, not want) for t in cur]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for t, vs in self.evs([e.left, e.comparators[0]], st):
                if isinstance(vs, Exc):
                    out.append((t, vs))
                else:
                    out.extend(self.compare(e.ops[0], vs[0], vs[1], t, e))
            return out
        if isinstance(e, ast.Compare):
            parts, left = [], e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [o], [r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st)
        out = []
        for t, v in self.ev(e, st):
            if isinstance(v, Exc):
                out.append((t, v))
            else:
                out.extend(self.truth(t, v, e))
        return out

    def truth(self, st, v, node):
        k = v[0]
        if k == "bool":
            return [(st, v[1])]
        if k == "none":
            return [(st, False)]
        if k == "num":
            return [(s, g != 0) for s, g in self.split_sign(st, v[1])]
        if k == "str":
            return [(st, bool(v[1]))]
        if k == "tup":
            return [(st, bool(v[1]))]
        if k == "kw":
            return [(st, bool(v[1]))]
        if k == "o":
            o = st.objs[v[1]]
            if o.items is not None:
                return [(st, bool(o.items))]
            r = self.T.truth(st, v)
            if r is not None:
                return r
            if o.cls is not None and (self.P.find_method(o.cls, "__len__") or self.P.find_method(o.cls, "__bool__")):
                out = []
                m = "__bool__" if self.P.find_method(o.cls, "__bool__") else "__len__"
                for t, x in self.callmethod(st, v, m, [], node):
                    out.extend([(t, x)] if isinstance(x, Exc) else self.truth(t, x, node))
                return out
            return [(st, True)]
        if k in ("fn", "bound", "cls", "mod", "native", "name", "cat"):
            return [(st, True)]
        a, b = self.alts(st, 2)
        return [(a, True), (b, False)]

    def both(self, st):
        a, b = self.alts(st, 2)
        return [(a, True), (b, False)]

    def compare(self, op, a, b, st, node):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))

        def fl(r):
            return [(s, x if isinstance(x, Exc) else (not x if neg else x)) for s, x in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            items = self.exact_items(b, st)
            if items is None:
                return self.T.contains(st, a, b, node) if not neg else fl(self.T.contains(st, a, b, node))
            cur, out = [st], []
            for x in items:
                nxt = []
                for t in cur:
                    for u, r in self.compare(ast.Eq(), a, x, t, node):
                        (out if r is True or isinstance(r, Exc) else nxt).append((u, r) if r is True or isinstance(r, Exc) else u)
                cur = nxt
            return fl(out + [(t, False) for t in cur])
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return fl(self.equal(a, b, st, node, isinstance(op, (ast.Is, ast.IsNot))))
        # ordering
        if is_num(a) and is_num(b):
            d = Z.sub(a[1], b[1])
            if isinstance(op, ast.LtE):
                return self.split_le0(st, d)
            if isinstance(op, ast.Lt):
                return self.split_le0(st, Z.add(d, Z.const(1)))
            if isinstance(op, ast.GtE):
                return self.split_le0(st, Z.scale(d, -1))
            return self.split_le0(st, Z.add(Z.scale(d, -1), Z.const(1)))
        if a == NONE or b == NONE:
            return [(st, Exc("TypeError", self.where(st, node)))]
        r = self.T.order(st, op, a, b, node)
        if r is not None:
            return r
        return self.both(st)

    def equal(self, a, b, st, node, ident=False):
        if a[0] == "num" and b[0] == "num":
            return [(s, g == 0) for s, g in self.split_sign(st, Z.sub(a[1], b[1]))]
        r = self.T.equal(st, a, b, node)
        if r is not None:
            return r
        if a == b and a[0] not in ("top", "user", "strtop"):
            return [(st, True)]
        ka, kb = a[0], b[0]
        if "top" in (ka, kb) or "strtop" in (ka, kb) or "user" in (ka, kb):
            if NONE in (a, b) and "strtop" in (ka, kb):
                return [(st, False)]
            return self.both(st)
        if ka == "key" and kb == "key":
            f = ("eq",) + tuple(sorted((a, b)))
            if f in st.facts:
                return [(st, True)]
            if ("ne",) + f[1:] in st.facts:
                return [(st, False)]
            x, y = self.alts(st, 2)
            x.facts = x.facts | {f}
            y.facts = y.facts | {("ne",) + f[1:]}
            return [(x, True), (y, False)]
        if ka == "o" and kb == "o":
            oa, ob = st.objs[a[1]], st.objs[b[1]]
            if not ident and (oa.items is not None or ob.items is not None):
                return self.both(st)
            return [(st, a[1] == b[1])]
        if ka == "tup" and kb == "tup":
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            cur, out = [st], []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for t in cur:
                    for u, r in self.equal(x, y, t, node):
                        if r is False:
                            out.append((u, False))
                        else:
                            nxt.append(u)
                cur = nxt
            return out + [(t, True) for t in cur]
        return [(st, False)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s at %s" % (type(e).__name__, self.where(st, e)))
        return m(e, st)

    def evs(self, es, st):
        """evaluates left to right, earlier values live in st.tmp meanwhile"""
        n0 = len(st.tmp)
        cur = [(st, None)]
        for e in es:
            nxt = []
            for t, x in cur:
                if x is not None:
                    nxt.append((t, x))
                    continue
                for u, v in self.ev(e, t):
                    if isinstance(v, Exc):
                        nxt.append((u, v))
                    else:
                        u.tmp.append(v)
                        nxt.append((u, None))
            cur = nxt
        out = []
        for t, x in cur:
            vals = t.tmp[n0:]
            del t.tmp[n0:]
            out.append((t, x if x is not None else vals))
        return out

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return [(st, NONE)]
        if isinstance(v, bool):
            return [(st, TRUE if v else FALSE)]
        if isinstance(v, int):
            return [(st, num(v))]
        if isinstance(v, str):
            return [(st, ("str", v))]
        return [(st, TOP)]

    def e_JoinedStr(self, e, st):
        if self.T.strings and all(isinstance(x, ast.Constant) or x.format_spec is None and x.conversion in (-1, 115) for x in e.values):
            parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
            out = []
            for t, vs in self.evs(parts, st):
                if isinstance(vs, Exc):
                    out.append((t, vs))
                    continue
                vs = list(vs)
                out.append((t, self.T.joined([vs.pop(0) if isinstance(x, ast.FormattedValue) else ("str", x.value) for x in e.values])))
            return out
        return [(st, ("strtop",))]

    def e_Name(self, e, st):
        f = st.frames[-1]
        if e.id in f.vars:
            return [(st, f.vars[e.id])]
        v = self.free(e.id, st)
        if v is None:
            raise Undecided("name %s at %s" % (e.id, self.where(st, e)))
        return [(st, v)]

    def free(self, name, st):
        f = st.frames[-1]
        up = f.vars.get(".up")
        while up is not None:
            g = st.frames[up[1]]
            if name in g.vars:
                return g.vars[name]
            up = g.vars.get(".up")
        if f.fi is not None:
            b = self.P.lookup(f.fi.module.name, name)
            if b is not None:
                v = self.binding(b, name)
                if v is not None:
                    return v
        if name in ("len", "range", "isinstance", "max", "min", "abs", "int", "str", "repr", "zip", "enumerate", "list", "tuple",
                    "hasattr", "getattr", "setattr", "delattr", "sorted", "super", "type", "object", "bool", "dict", "reversed", "sum", "float", "id", "iter", "next"):
            return ("native", name)
        if name.endswith("Error") or name == "Exception":
            return ("native", "exc:" + name)
        return None

    def binding(self, b, name):
        if b[0] == "func":
            return ("fn", b[1], None)
        if b[0] == "class":
            return ("cls", b[1])
        if b[0] == "mod":
            return ("mod", b[1])
        if b[0] == "ext":
            if b[1] == "collections" and b[2] == "deque":
                return ("native", "list")
            return ("ext", "%s.%s" % (b[1], b[2]))
        if b[0] == "expr":
            e = b[1]
            if isinstance(e, ast.Constant):
                return self.e_Constant(e, None)[0][1]
            if isinstance(e, ast.Name):
                b2 = self.P.lookup(b[2].name, e.id)
                return self.binding(b2, e.id) if b2 else None
            if isinstance(e, ast.Lambda):
                return ("fn", FuncInfo(e, b[2], name), None)
            return TOP
        return None

    def e_Attribute(self, e, st):
        out = []
        for t, b in self.ev(e.value, st):
            out.extend([(t, b)] if isinstance(b, Exc) else self.getattr(t, b, e.attr, e))
        return out

    def getattr(self, st, b, name, node):
        k = b[0]
        if k == "o":
            r = self.T.getattr(st, b, name, node)
            if r is not None:
                return r
            o = st.objs[b[1]]
            if name in o.fields:
                return [(st, o.fields[name])]
            if o.items is not None:
                return [(st, ("listm", name, b))]
            if name == "__class__" and o.cls is not None:
                return [(st, ("cls", o.cls))]
            if o.cls is not None:
                return self.classattr(st, o.cls, name, b, node)
            raise Undecided("attribute %s of %s at %s" % (name, o.kind, self.where(st, node)))
        if k == "none":
            return [(st, Exc("AttributeError", self.where(st, node)))]
        if k == "super":
            for c in self.P.next_in_mro(b[3], b[1]):
                if name in c.methods:
                    return self.method(st, c.methods[name], b[2], node, b[3])
            if name == "__new__":
                return [(st, ("native", "object.__new__"))]
            if name == "__init__":
                return [(st, ("native", "noop"))]
            if name in ("__setattr__", "__getattribute__"):
                return [(st, ("natm", name, b[2]))]
            raise Undecided("super().%s" % name)
        if k == "cls":
            r = self.T.classattr(st, b[1], name, node)
            if r is not None:
                return r
            m = self.P.find_method(b[1], name)
            if m is not None:
                if m.is_classmethod:
                    return [(st, ("bound", m, b))]
                return [(st, ("fn", m, None))]
            if name == "__new__":
                return [(st, ("native", "object.__new__"))]
            a = self.P.find_class_attr(b[1], name)
            if a is not None:
                return [(st, self.classval(a, name))]
            if name == "__name__":
                return [(st, ("str", b[1].name))]
            return [(st, ("enum", b[1].name, name))]
        if k == "mod":
            if b[1] in self.P.modules:
                bd = self.P.lookup(b[1], name)
                if bd is not None:
                    return [(st, self.binding(bd, name))]
            return [(st, ("ext", "%s.%s" % (b[1], name)))]
        if k == "ext":
            return [(st, ("ext", "%s.%s" % (b[1], name)))]
        if k == "kw":
            return [(st, ("kwm", name, b))]
        if k == "enum":
            return [(st, ("str", b[2]) if name == "name" else TOP)]
        if k == "native" and b[1] == "object" and name == "__new__":
            return [(st, ("native", "object.__new__"))]
        if k in ("top", "user", "strtop", "str", "key") and not (k == "str" and name in self.T.strings):
            return [(st, ("topm", name))]
        r = self.T.getattr(st, b, name, node)
        if r is not None:
            return r
        if k in ("num", "bool"):
            return [(st, Exc("AttributeError", self.where(st, node)))]
        raise Undecided("attribute %s of %s at %s" % (name, k, self.where(st, node)))

    def classval(self, a, name):
        c, e = a
        if isinstance(e, ast.Lambda):
            cc = self.__dict__.setdefault("_cl", {})
            if e not in cc:
                cc[e] = FuncInfo(e, c.module, "%s.%s" % (c.name, name), c)
            return ("fn", cc[e], None)
        if isinstance(e, ast.Constant):
            return self.e_Constant(e, None)[0][1]
        return TOP

    def classattr(self, st, cls, name, b, node):
        m = self.P.find_method(cls, name)
        if m is not None:
            return self.method(st, m, b, node, cls)
        a = self.P.find_class_attr(cls, name)
        if a is not None:
            v = self.classval(a, name)
            if v[0] == "fn":
                return [(st, ("bound", v[1], b))]
            return [(st, v)]
        if name in ("__setattr__", "__getattribute__"):
            return [(st, ("natm", name, b))]
        if name == "__class__":
            return [(st, ("cls", cls))]
        r = self.T.missing(st, b, name, node)
        if r is not None:
            return r
        return [(st, Exc("AttributeError", self.where(st, node)))]

    def method(self, st, m, b, node, cls):
        if m.is_property:
            return self.callfn(st, m, [b], {}, node)
        if m.is_static:
            return [(st, ("fn", m, None))]
        if m.is_classmethod:
            return [(st, ("bound", m, ("cls", cls)))]
        if m.node.name == "__new__":
            return [(st, ("fn", m, None))]
        return [(st, ("bound", m, b))]

    def setattr(self, st, b, name, v, node):
        """-> [(st, None|Exc)]"""
        if b[0] == "none":
            return [(st, Exc("AttributeError", self.where(st, node)))]
        if b[0] != "o":
            if b[0] in ("top", "user", "key"):
                raise Undecided("store into unknown object at %s" % self.where(st, node))
            raise Undecided("attribute store on %s at %s" % (b[0], self.where(st, node)))
        o = st.objs[b[1]]
        if o.cls is not None:
            s = self.P.find_setter(o.cls, name)
            if s is not None:
                return [(t, x if isinstance(x, Exc) else None) for t, x in self.callfn(st, s, [b, v], {}, node)]
        r = self.T.setattr(st, b, name, v, node)
        if r is not None:
            return r
        o.fields[name] = v
        o.mod.add(name)
        o.w[name] = self.where(st, node)
        return [(st, None)]

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            out = []
            for t, b in self.ev(e.value, st):
                if isinstance(b, Exc):
                    out.append((t, b))
                    continue
                if self.T.slices(t, b):
                    parts = [x for x in (e.slice.lower, e.slice.upper) if x is not None]
                    t.tmp.append(b)
                    for u, vs in self.evs(parts, t):
                        b2 = u.tmp.pop()
                        if isinstance(vs, Exc):
                            out.append((u, vs))
                            continue
                        vs = list(vs)
                        lo = vs.pop(0) if e.slice.lower is not None else NONE
                        hi = vs.pop(0) if e.slice.upper is not None else NONE
                        if e.slice.step is not None:
                            raise Undecided("slice at %s" % self.where(u, e))
                        out.extend(self.T.slice(u, b2, lo, hi, e))
                    continue
                items = self.exact_items(b, t)
                if items is None or e.slice.lower or e.slice.upper or not isinstance(e.slice.step, (ast.UnaryOp, type(None))):
                    out.append((t, TOP))
                    continue
                if e.slice.step is not None:
                    items = list(reversed(items))
                out.append((t, ("tup", tuple(items)) if b[0] == "tup" else t.new("list", None, None, list(items))))
            return out
        out = []
        for t, bi in self.evs([e.value, e.slice], st):
            out.extend([(t, bi)] if isinstance(bi, Exc) else self.getitem(t, bi[0], bi[1], e))
        return out

    def getitem(self, st, b, i, node):
        r = self.T.getitem(st, b, i, node)
        if r is not None:
            return r
        items = self.exact_items(b, st)
        if items is not None:
            if i[0] == "num" and Z.is_const(i[1]):
                n = i[1][1]
                if -len(items) <= n < len(items):
                    return [(st, items[n])]
                return [(st, Exc("IndexError", self.where(st, node)))]
            raise Undecided("index into a list at %s" % self.where(st, node))
        if b[0] == "kw":
            for k, v in b[1]:
                if i == ("str", k):
                    return [(st, v)]
            return [(st, Exc("KeyError", self.where(st, node)))]
        if b[0] == "o" and st.objs[b[1]].cls is not None:
            return self.callmethod(st, b, "__getitem__", [i], node)
        if b[0] == "o" and st.objs[b[1]].kind == "dict":
            return self.dictget(st, b, i, node, None)
        if b[0] == "none":
            return [(st, Exc("TypeError", self.where(st, node)))]
        if b[0] in ("top", "user"):
            return [(st, TOP)]
        raise Undecided("subscript of %s at %s" % (b[0], self.where(st, node)))

    def dictget(self, st, b, i, node, default):
        """exact dictionaries: pairs (key, value)"""
        cur, out = [st], []
        n = len(st.objs[b[1]].fields["@pairs"])
        for j in range(n):
            nxt = []
            for t in cur:
                k, v = t.objs[b[1]].fields["@pairs"][j]
                for u, r in self.equal(i, k, t, node):
                    if r is True:
                        out.append((u, u.objs[b[1]].fields["@pairs"][j][1]))
                    else:
                        nxt.append(u)
            cur = nxt
        return out + [(t, default if default is not None else Exc("KeyError", self.where(t, node))) for t in cur]

    def setitem(self, st, b, i, v, node):
        r = self.T.setitem(st, b, i, v, node)
        if r is not None:
            return r
        if b[0] == "o":
            o = st.objs[b[1]]
            if o.items is not None and i[0] == "num" and Z.is_const(i[1]) and -len(o.items) <= i[1][1] < len(o.items):
                o.items[i[1][1]] = v
                return [(st, None)]
            if o.kind == "dict":
                out = []
                cur = [st]
                for j in range(len(o.fields["@pairs"])):
                    nxt = []
                    for t in cur:
                        k = t.objs[b[1]].fields["@pairs"][j][0]
                        for u, r in self.equal(i, k, t, node):
                            if r is True:
                                p = list(u.objs[b[1]].fields["@pairs"])
                                p[j] = (k, v)
                                u.objs[b[1]].fields["@pairs"] = tuple(p)
                                out.append((u, None))
                            else:
                                nxt.append(u)
                    cur = nxt
                for t in cur:
                    t.objs[b[1]].fields["@pairs"] += ((i, v),)
                    out.append((t, None))
                return out
            if o.cls is not None:
                return [(t, x if isinstance(x, Exc) else None) for t, x in self.callmethod(st, b, "__setitem__", [i, v], node)]
        raise Undecided("item store at %s" % self.where(st, node))

    def exact_items(self, v, st):
        r = self.T.items(st, v)
        if r is not None:
            return r
        if v[0] == "tup":
            return list(v[1])
        if v[0] == "o" and st.objs[v[1]].items is not None:
            return list(st.objs[v[1]].items)
        if v[0] == "zip":
            ls = [self.exact_items(x, st) for x in v[1]]
            if any(x is None for x in ls):
                return None
            return [("tup", t) for t in zip(*ls)]
        if v[0] == "enumerate":
            l = self.exact_items(v[1], st)
            return None if l is None else [("tup", (num(i), x)) for i, x in enumerate(l)]
        if v[0] == "range" and Z.is_const(v[1]) and Z.is_const(v[2]):
            return [num(i) for i in range(v[1][1], v[2][1], v[3])]
        return None

    def e_Tuple(self, e, st):
        return [(t, v if isinstance(v, Exc) else ("tup", tuple(v))) for t, v in self.evs(e.elts, st)]

    def e_List(self, e, st):
        return [(t, v if isinstance(v, Exc) else t.new("list", None, None, list(v))) for t, v in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise Undecided("dict display")
        n = len(e.keys)
        out = []
        for t, v in self.evs(list(e.keys) + list(e.values), st):
            out.append((t, v if isinstance(v, Exc) else t.new("dict", None, {"@pairs": tuple(zip(v[:n], v[n:]))})))
        return out

    def e_Lambda(self, e, st):
        return [(st, ("fn", self.func_of(e, st), len(st.frames) - 1))]

    def e_IfExp(self, e, st):
        out = []
        for t, b in self.cond(e.test, st):
            out.extend([(t, b)] if isinstance(b, Exc) else self.ev(e.body if b else e.orelse, t))
        return out

    def e_BoolOp(self, e, st):
        want = isinstance(e.op, ast.Or)
        cur, out = [(st, None)], []
        for j, x in enumerate(e.values):
            nxt = []
            for t, _ in cur:
                for u, v in self.ev(x, t):
                    if isinstance(v, Exc):
                        out.append((u, v))
                        continue
                    if j == len(e.values) - 1:
                        out.append((u, v))
                        continue
                    u.tmp.append(v)
                    for w, b in self.truth(u, v, e):
                        vv = w.tmp.pop()
                        if isinstance(b, Exc):
                            out.append((w, b))
                        elif b == want:
                            out.append((w, vv))
                        else:
                            nxt.append((w, None))
            cur = nxt
        return out

    def e_Compare(self, e, st):
        return [(t, b if isinstance(b, Exc) else (TRUE if b else FALSE)) for t, b in self.cond(e, st)]

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(t, b if isinstance(b, Exc) else (TRUE if b else FALSE)) for t, b in self.cond(e, st)]
        out = []
        for t, v in self.ev(e.operand, st):
            if isinstance(v, Exc):
                out.append((t, v))
            elif v[0] == "num" and isinstance(e.op, ast.USub):
                out.append((t, ("num", Z.scale(v[1], -1))))
            else:
                out.append((t, v if isinstance(e.op, ast.UAdd) else TOP))
        return out

    def e_BinOp(self, e, st):
        out = []
        for t, vs in self.evs([e.left, e.right], st):
            out.extend([(t, vs)] if isinstance(vs, Exc) else self.binop(e.op, vs[0], vs[1], t, e))
        return out

    def binop(self, op, a, b, st, node):
        r = self.T.binop(st, op, a, b, node)
        if r is not None:
            return r
        if a[0] == "num" and b[0] == "num":
            if isinstance(op, ast.Add):
                return [(st, ("num", Z.add(a[1], b[1])))]
            if isinstance(op, ast.Sub):
                return [(st, ("num", Z.sub(a[1], b[1])))]
            if isinstance(op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if Z.is_const(y[1]):
                        return [(st, ("num", Z.scale(x[1], y[1][1])))]
            if Z.is_const(a[1]) and Z.is_const(b[1]) and b[1][1] != 0:
                x, y = a[1][1], b[1][1]
                if isinstance(op, ast.FloorDiv):
                    return [(st, num(x // y))]
                if isinstance(op, ast.Mod):
                    return [(st, num(x % y))]
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                return [(st, ("num", Z.sym(st.fresh())))]
            return [(st, TOP)]
        if a[0] in ("str", "strtop") or b[0] in ("str", "strtop"):
            if a[0] == "str" and b[0] == "str" and isinstance(op, ast.Add):
                return [(st, ("str", a[1] + b[1]))]
            return [(st, ("strtop",))]
        if isinstance(op, ast.Add):
            x, y = self.exact_items(a, st), self.exact_items(b, st)
            if x is not None and y is not None:
                if a[0] == "tup":
                    return [(st, ("tup", tuple(x + y)))]
                return [(st, st.new("list", None, None, x + y))]
        if a[0] == "none" or b[0] == "none":
            return [(st, Exc("TypeError", self.where(st, node)))]
        return [(st, TOP)]

    def comp_ok(self, e):
        return len(e.generators) == 1 and not e.generators[0].is_async

    def e_ListComp(self, e, st):
        if not self.comp_ok(e):
            raise Undecided("comprehension at %s" % self.where(st, e))
        g = e.generators[0]
        out = []
        for t, it in self.ev(g.iter, st):
            if isinstance(it, Exc):
                out.append((t, it))
                continue
            if self.T.isbag(t, it):
                out.extend(self.comp_loop(e, t, it))
                continue
            items = self.exact_items(it, t)
            if items is None and (it[0] == "range" or self.T.iterable(t, it)) and self.T.symbolic_lists:
                out.extend(self.comp_loop(e, t, it))
                continue
            if items is None:
                raise Undecided("comprehension at %s" % self.where(t, e))
            n0 = len(t.tmp)
            t.tmp.extend(reversed(items))
            t.tmp.append(t.new("list", None, None, []))
            cur = [t]
            for _ in items:
                nxt = []
                for u in cur:
                    acc, x = u.tmp.pop(), u.tmp.pop()
                    u.tmp.append(acc)
                    for w, c in self.assign(g.target, x, u, e):
                        ws = [w]
                        for test in g.ifs:
                            ys = []
                            for y in ws:
                                for z, b in self.cond(test, y):
                                    if isinstance(b, Exc):
                                        raise Undecided("exception in comprehension")
                                    if b:
                                        ys.append(z)
                                    else:
                                        nxt.append(z)
                            ws = ys
                        for y in ws:
                            for z, v in self.ev(e.elt, y):
                                if isinstance(v, Exc):
                                    raise Undecided("exception in comprehension")
                                z.objs[z.tmp[-1][1]].items.append(v)
                                nxt.append(z)
                cur = nxt
            for u in cur:
                acc = u.tmp[-1]
                del u.tmp[n0:]
                out.append((u, acc))
        return out

    e_GeneratorExp = e_ListComp

    def e_Starred(self, e, st):
        raise Undecided("starred")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        es = [e.func] + list(e.args)
        star = None
        if any(isinstance(a, ast.Starred) for a in e.args):
            if len([a for a in e.args if isinstance(a, ast.Starred)]) > 1 or not isinstance(e.args[-1], ast.Starred):
                raise Undecided("starred call")
            star = len(es) - 1
            es = es[:-1] + [e.args[-1].value]
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = st.frames[-1]
            fi = f.fi
            return [(st, self.mksuper(fi.cls, f.first, st))]
        names = [k.arg for k in e.keywords]
        es += [k.value for k in e.keywords]
        out = []
        for t, vs in self.evs(es, st):
            if isinstance(vs, Exc):
                out.append((t, vs))
                continue
            n = 1 + len(e.args)
            pos, kv = vs[1:n], vs[n:]
            if star is not None:
                it = self.exact_items(pos[-1], t)
                if it is None:
                    raise Undecided("starred call")
                pos = pos[:-1] + it
            kw = {}
            for a, v in zip(names, kv):
                if a is None:
                    if v[0] != "kw":
                        raise Undecided("** call")
                    kw.update(dict(v[1]))
                else:
                    kw[a] = v
            out.extend(self.call(t, vs[0], pos, kw, e))
        return out

    def mksuper(self, after, selfv, st):
        if selfv is None:
            raise Undecided("super")
        if selfv[0] == "o":
            return ("super", after, selfv, st.objs[selfv[1]].cls)
        return ("super", after, selfv, selfv[1])

    def callmethod(self, st, b, name, args, node, kw=None):
        out = []
        st.tmp.extend(args)
        for t, f in self.getattr(st, b, name, node):
            a = t.tmp[len(t.tmp) - len(args):] if args else []
            if args:
                del t.tmp[len(t.tmp) - len(args):]
            out.extend([(t, f)] if isinstance(f, Exc) else self.call(t, f, a, dict(kw or {}), node))
        return out

    def call(self, st, f, args, kw, node):
        k = f[0]
        r = self.T.call(st, f, args, kw, node)
        if r is not None:
            return r
        if k == "bound":
            return self.callfn(st, f[1], [f[2]] + args, kw, node)
        if k == "fn":
            return self.callfn(st, f[1], args, kw, node, f[2])
        if k == "cls":
            m = self.P.find_method(f[1], "__new__")
            if m is not None:
                outs = self.callfn(st, m, [f] + args, kw, node)
            else:
                outs = [(st, st.new("inst", f[1]))]
            i = self.P.find_method(f[1], "__init__")
            if i is None:
                return outs
            res = []
            for t, v in outs:
                if isinstance(v, Exc):
                    res.append((t, v))
                    continue
                t.tmp.append(v)
                for u, x in self.callfn(t, i, [v] + args, kw, node):
                    vv = u.tmp.pop()
                    res.append((u, x if isinstance(x, Exc) else vv))
            return res
        if k == "native":
            return self.native(st, f[1], args, kw, node)
        if k == "natm":
            if f[1] == "__setattr__":
                if args[0][0] == "str":
                    return [(t, x if isinstance(x, Exc) else NONE) for t, x in self.setattr(st, f[2], args[0][1], args[1], node)]
            elif args[0][0] == "str":
                return self.getattr(st, f[2], args[0][1], node)
            raise Undecided("reflective access at %s" % self.where(st, node))
        if k == "listm":
            return self.listm(st, f[1], f[2], args, node)
        if k == "kwm":
            d = dict(f[2][1])
            if f[1] in ("get", "pop") and args and args[0][0] == "str":
                return [(st, d.get(args[0][1], args[1] if len(args) > 1 else NONE))]
            raise Undecided("kwargs." + f[1])
        if k == "topm":
            if f[1] in ("append", "insert", "pop", "update", "clear", "remove", "extend", "sort"):
                raise Undecided("method of an unknown object at %s" % self.where(st, node))
            return [(st, ("strtop",) if f[1] in ("join", "format", "strip") else TOP)]
        if k == "ext":
            if f[1] == "concurrent.futures.ThreadPoolExecutor":
                raise Undecided("threads")
            return [(st, TOP)]
        if k in ("top", "user"):
            return [(st, TOP)]
        if k == "none":
            return [(st, Exc("TypeError", self.where(st, node)))]
        raise Undecided("call of %s at %s" % (k, self.where(st, node)))

    def callfn(self, st, fi, args, kw, node, up=None):
        if len(st.frames) > self.MAXDEPTH:
            raise Undecided("call depth")
        self.visited.add(fi)
        if fi.is_gen:
            raise Undecided("generator %s" % fi.qual)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        b, extra, kx = {}, [], {}
        for i, v in enumerate(args):
            if i < len(names):
                b[names[i]] = v
            else:
                extra.append(v)
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in b:
                    return [(st, Exc("TypeError", self.where(st, node)))]
                b[k] = v
            else:
                kx[k] = v
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        for n in names + kwonly:
            if n not in b:
                if n not in dfl:
                    return [(st, Exc("TypeError", self.where(st, node)))]
                d = dfl[n]
                if isinstance(d, ast.Constant):
                    b[n] = self.e_Constant(d, st)[0][1]
                elif isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
                    b[n] = num(-d.operand.value)
                elif isinstance(d, (ast.List, ast.Tuple)) and not d.elts:
                    if isinstance(d, ast.Tuple):
                        b[n] = ("tup", ())
                        continue
                    known = dict(st.ghost.get("dfl", ())) if self.T.one_default else {}
                    if (fi.qual, n) not in known:
                        b[n] = st.new("list", None, None, [])
                        if self.T.one_default:      # evaluated once, when the function is defined
                            st.ghost["dfl"] = st.ghost.get("dfl", ()) + (((fi.qual, n), b[n]),)
                        continue
                    b[n] = known[fi.qual, n]
                elif isinstance(d, ast.Name) or isinstance(d, ast.Attribute):
                    b[n] = TOP
                else:
                    raise Undecided("default argument")
        if extra and a.vararg is None or kx and a.kwarg is None:
            return [(st, Exc("TypeError", self.where(st, node)))]
        if a.vararg is not None:
            b[a.vararg.arg] = ("tup", tuple(extra))
        if a.kwarg is not None:
            b[a.kwarg.arg] = ("kw", tuple(sorted(kx.items())))
        if up is not None:
            b[".up"] = ("up", up)
        if node is not None and hasattr(node, "lineno") and st.frames:
            f = st.frames[-1]
            keep = self.live_at(node, st)
            if keep is not None:
                f.vars = {k: v for k, v in f.vars.items() if k in keep or k[0] == "."}
        st.frames.append(Frame(fi, b, args[0] if args else None))
        out = []
        if isinstance(fi.node, ast.Lambda):
            for t, v in self.ev(fi.node.body, st):
                t.frames.pop()
                out.append((t, v))
            return out
        for t, c in self.block(fi.node.body, st):
            t.frames.pop()
            if c is None:
                out.append((t, NONE))
            elif c[0] == "ret":
                out.append((t, c[1]))
            elif c[0] == "exc":
                out.append((t, Exc(c[1], c[2])))
            else:
                raise Undecided("control flow")
        return out

    def listm(self, st, name, b, args, node):
        o = st.objs[b[1]]
        if name == "append":
            o.items.append(args[0])
            if len(o.items) > 60:
                raise Undecided("list grows")
            return [(st, NONE)]
        if name == "appendleft":
            o.items.insert(0, args[0])
            if len(o.items) > 60:
                raise Undecided("list grows")
            return [(st, NONE)]
        if name == "extend":
            it = self.exact_items(args[0], st)
            if it is not None:
                o.items.extend(it)
                return [(st, NONE)]
        if name in ("pop", "popleft"):
            if not o.items:
                return [(st, Exc("IndexError", self.where(st, node)))]
            if args:
                if not (args[0][0] == "num" and Z.is_const(args[0][1])):
                    raise Undecided("pop(i)")
                return [(st, o.items.pop(args[0][1][1]))]
            return [(st, o.items.pop(0 if name == "popleft" else -1))]
        if name == "reverse":
            o.items.reverse()
            return [(st, NONE)]
        if name == "clear":
            del o.items[:]
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.new("list", None, None, list(o.items)))]
        raise Undecided("list method %s at %s" % (name, self.where(st, node)))

    def native(self, st, n, args, kw, node):
        if n == "object.__new__":
            c = args[0]
            return [(st, st.new("inst", c[1] if c[0] == "cls" else None))]
        if n == "noop":
            return [(st, NONE)]
        if n == "super":
            if len(args) == 2 and args[0][0] == "cls":
                return [(st, self.mksuper(args[0][1], args[1], st))]
            raise Undecided("super")
        if n == "len":
            it = self.exact_items(args[0], st)
            if it is not None:
                return [(st, num(len(it)))]
            if args[0][0] == "o" and st.objs[args[0][1]].cls is not None:
                return self.callmethod(st, args[0], "__len__", [], node)
            if args[0][0] == "none":
                return [(st, Exc("TypeError", self.where(st, node)))]
            s = st.fresh()
            st.zone.assume_le0(Z.scale(Z.sym(s), -1))
            return [(st, ("num", Z.sym(s)))]
        if n == "range":
            if not all(a[0] == "num" for a in args):
                raise Undecided("range")
            lo, hi = (Z.const(0), args[0][1]) if len(args) == 1 else (args[0][1], args[1][1])
            s = 1
            if len(args) == 3:
                if not Z.is_const(args[2][1]):
                    raise Undecided("range step")
                s = args[2][1][1]
            return [(st, ("range", lo, hi, s))]
        if n in ("list", "tuple"):
            if not args:
                return [(st, st.new("list", None, None, []) if n == "list" else ("tup", ()))]
            it = self.exact_items(args[0], st)
            if it is None:
                raise Undecided("list()")
            return [(st, st.new("list", None, None, it) if n == "list" else ("tup", tuple(it)))]
        if n == "dict" and not args:
            return [(st, st.new("dict", None, {"@pairs": tuple((("str", k), v) for k, v in kw.items())}))]
        if n == "zip":
            return [(st, ("zip", tuple(args)))]
        if n == "enumerate":
            return [(st, ("enumerate", args[0]))]
        if n == "reversed":
            if args[0][0] == "range" and abs(args[0][3]) == 1:
                _, lo, hi, sp = args[0]
                return [(st, ("range", Z.sub(hi, Z.const(sp)), Z.sub(lo, Z.const(sp)), -sp))]
            it = self.exact_items(args[0], st)
            if it is not None:
                return [(st, ("tup", tuple(reversed(it))))]
            raise Undecided("reversed")
        if n in ("max", "min"):
            if len(args) == 1:
                it = self.exact_items(args[0], st)
                if it:
                    args = it
            if len(args) >= 2 and all(a[0] == "num" for a in args):
                cur = [(st, args[0][1])]
                for a in args[1:]:
                    nxt = []
                    for t, x in cur:
                        for u, le in self.split_le0(t, Z.sub(x, a[1])):
                            nxt.append((u, a[1] if le == (n == "max") else x))
                    cur = nxt
                return [(t, ("num", x)) for t, x in cur]
            return [(st, TOP)]
        if n == "abs" and args[0][0] == "num":
            return [(t, ("num", Z.scale(args[0][1], -1 if g < 0 else 1))) for t, g in self.split_sign(st, args[0][1])]
        if n == "int":
            return [(st, args[0] if args and args[0][0] == "num" else TOP)]
        if n == "bool":
            return [(t, b if isinstance(b, Exc) else (TRUE if b else FALSE)) for t, b in self.truth(st, args[0], node)]
        if n in ("str", "repr"):
            return [(st, args[0] if args and args[0][0] == "str" else ("strtop",))]
        if n == "isinstance":
            return self.isinst(st, args[0], args[1])
        if n == "type":
            if args[0][0] == "o" and st.objs[args[0][1]].cls is not None:
                return [(st, ("cls", st.objs[args[0][1]].cls))]
            return [(st, TOP)]
        if n == "hasattr" and args[1][0] == "str":
            out = []
            for t, v in self.getattr(st, args[0], args[1][1], node):
                out.append((t, FALSE if isinstance(v, Exc) and v.name == "AttributeError" else TRUE))
            return out
        if n == "getattr" and args[1][0] == "str":
            r = self.getattr(st, args[0], args[1][1], node)
            if len(args) > 2:
                r = [(t, args[2] if isinstance(v, Exc) and v.name == "AttributeError" else v) for t, v in r]
            return r
        if n == "setattr" and args[1][0] == "str":
            return [(t, x if isinstance(x, Exc) else NONE) for t, x in self.setattr(st, args[0], args[1][1], args[2], node)]
        if n.startswith("exc:"):
            return [(st, ("excobj", n[4:]))]
        if n in ("float", "id"):
            return [(st, TOP)]
        raise Undecided("builtin %s at %s" % (n, self.where(st, node)))

    def isinst(self, st, v, c):
        r = self.T.isinst(st, v, c)
        if r is not None:
            return r
        cs = list(c[1]) if c[0] == "tup" else [c]
        for x in cs:
            if x[0] == "cls" and v[0] == "o" and st.objs[v[1]].cls is not None:
                if x[1] in self.P.mro(st.objs[v[1]].cls):
                    return [(st, TRUE)]
            elif x[0] == "native" and x[1] == "int" and v[0] in ("num", "bool"):
                return [(st, TRUE)]
            elif x[0] == "native" and x[1] == "str" and v[0] in ("str", "strtop"):
                return [(st, TRUE)]
            elif x[0] == "native" and x[1] == "list" and v[0] == "o" and st.objs[v[1]].kind == "list":
                return [(st, TRUE)]
            elif x[0] == "native" and x[1] == "tuple" and v[0] == "tup":
                return [(st, TRUE)]
        if v[0] in ("top", "user", "key"):
            return [(t, TRUE if b else FALSE) for t, b in self.both(st)]
        return [(st, FALSE)]


class Theory:
    """default hooks: nothing special"""
    one_default = False
    I = None

    def items(self, st, v):
        return None

    def setslice(self, st, v, lo, hi, x, node):
        raise Undecided("slice assigned at %s" % self.I.where(st, node))

    memo = False
    symbolic_lists = False

    def repeat(self, st, v, n):
        """-> [(state, list of n times v)]"""
        raise Undecided("repeated list")

    dictcomps = False
    strings = ()                  # methods of strings the theory follows

    def isbag(self, st, v):
        return False

    def made(self, st, e, v, it):
        """a comprehension over it has produced v"""

    thresholds = ()     # bounds tried before a bound that grows is given up

    def tag(self, st):
        """states at a loop head with different tags are not joined"""
        return None

    def iterable(self, st, v):
        return False

    def slices(self, st, v):
        return False

    def delitem(self, st, b, i, node):
        return None

    def isinst(self, st, v, c):
        return None

    def roots(self, st):
        return []

    def rebase(self, st):
        return [st]

    def fold(self, st):
        return [st]

    def truth(self, st, v):
        return None

    def contains(self, st, a, b, node):
        return self.I.both(st)

    def order(self, st, op, a, b, node):
        return None

    def equal(self, st, a, b, node):
        return None

    def getattr(self, st, b, name, node):
        return None

    def classattr(self, st, cls, name, node):
        return None

    def missing(self, st, b, name, node):
        return None

    def setattr(self, st, b, name, v, node):
        return None

    def getitem(self, st, b, i, node):
        return None

    def setitem(self, st, b, i, v, node):
        return None

    def binop(self, st, op, a, b, node):
        return None

    def call(self, st, f, args, kw, node):
        return None
