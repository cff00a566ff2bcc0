"""Jobs handed to thread pools (P08): when may they overlap, and what do they share.

On top of the points-to engine: a state carries the jobs that may still be running (asked for
their result, or the pool left: no more), every job the locations it may read and write.  Two jobs
that may overlap, or a job and the code that goes on while it runs, must not share a location one
of them writes; and what a job raises must reach the caller."""
import ast
import multiprocessing
import os

from . import clients
from .program import Program, AnalysisBroken
from .pta import Interp, E0

LOOPS = (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)


class Eff:
    __slots__ = ("R", "W", "A")

    def __init__(self):
        self.R, self.W, self.A = set(), {}, set()

    def add(self, o):
        self.R |= o.R
        self.A |= o.A
        for k, v in o.W.items():
            self.W.setdefault(k, set()).update(v)


def parents(fn):
    if not hasattr(fn, "_par"):
        fn._par = {c: p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}
    return fn._par


def loops_around(fn, node):
    par, out = parents(fn), []
    while node in par:
        node = par[node]
        if isinstance(node, LOOPS):
            out.append(node)
    return out


def assigned(tree):
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def asks(tree, var):
    """does evaluating `tree` surely ask `var` for its result"""
    if isinstance(tree, ast.Call) and isinstance(tree.func, ast.Attribute) and tree.func.attr in ("result", "exception") and \
            isinstance(tree.func.value, ast.Name) and tree.func.value.id == var:
        return True
    if isinstance(tree, (ast.If, ast.While, ast.For, ast.Try, ast.With, ast.Lambda, ast.FunctionDef, ast.IfExp)):
        return False
    if isinstance(tree, ast.BoolOp):
        return asks(tree.values[0], var)
    return any(asks(c, var) for c in ast.iter_child_nodes(tree))


class Sched(Interp):
    def __init__(self, prog, K=None):
        super().__init__(prog, K)
        self.eff = {}           # call -> Eff
        self.acc = [Eff()]
        self.keys = []
        self.jobs = {}          # site -> dict
        self.over = {}          # (site, site, kind) -> None
        self.mainover = {}      # (site, (path, line, func)) -> Eff
        self.asked = set()      # sites whose result is asked for
        self.left = {}          # site -> phases in which it may be running at the end
        self.fn = {}            # job site -> functions

    # ------------------------------------------------------------------ effects
    def get(self, oid, field):
        self.acc[-1].R.add((oid, field))
        return super().get(oid, field)

    def write(self, st, atom, field, node, fr, how):
        if atom[0] == "o":
            c = getattr(node, "value", None) if isinstance(node, ast.Assign) and how == "item store" else None
            self.acc[-1].W.setdefault((atom[1], field), set()).add(
                (how, fr.module.path, getattr(node, "lineno", 0)) + ((repr(c.value),) if isinstance(c, ast.Constant) else ()))
        super().write(st, atom, field, node, fr, how)

    def capture(self, f, name, v):
        self.acc[-1].W.setdefault((("frame", f.fid), name), set()).add(("assignment", f.module.path, 0))
        super().capture(f, name, v)

    def write_frame(self, st, fid, name, node, fr):
        self.acc[-1].W.setdefault((("frame", fid), name), set()).add(("assignment", fr.module.path, node.lineno))
        super().write_frame(st, fid, name, node, fr)

    def e_Name(self, e, st, fr):
        if e.id not in st.env:
            p = fr.parent
            while p is not None and p[0] == "fr":
                if e.id in self.frames.get(p, {}):
                    self.acc[-1].R.add((("frame", p), e.id))
                    break
                p = p[3]
        return super().e_Name(e, st, fr)

    def alloc(self, *a, **k):
        o = super().alloc(*a, **k)
        self.acc[-1].A.add(o[1])
        return o

    def enter(self, key):
        self.acc.append(Eff())
        self.keys.append(key)

    def leave(self, key):
        e = self.acc.pop()
        self.keys.pop()
        # a function's own variables are nobody else's business
        e.W = {k: v for k, v in e.W.items() if not (isinstance(k[0], tuple) and k[0][1][1] is key[0])}
        self.eff.setdefault(key, Eff()).add(e)

    def called(self, key, r, st):
        e = self.eff.get(key)
        if e is not None:
            self.acc[-1].add(e)
        P = set(st.P)
        for t in r.P:
            if t[0] == "await":
                P = {x for x in P if x[1] != t[1]}
            else:
                P.add(t)
        st.P = frozenset(P)

    # ------------------------------------------------------------------ jobs
    def call_bim(self, recv, name, args, star, kw, st, fr, node):
        if recv[0] == "x" and name in ("submit", "map") and args:
            return self.submit(name, args, star, kw, st, fr, node)
        if recv[0] == "x" and name == "shutdown":
            w = kw.get("wait", args[0] if args else None)
            if w is None or w == frozenset([("c", "bool", True)]):
                st.P = E0
            return super().call_bim(recv, name, args, star, kw, st, fr, node)
        if recv[0] == "fut" and len(recv) > 2:
            if name in ("result", "exception"):
                self.asked.add(recv[2])
                P = frozenset(x for x in st.P if not (x[1] == recv[2] and x[2] in ("one", "old1")))
                if P == st.P and not any(x[1] == recv[2] for x in P):
                    P = P | {("await", recv[2], "")}
                st.P = P
                return recv[1]
        return super().call_bim(recv, name, args, star, kw, st, fr, node)

    def submit(self, name, args, star, kw, st, fr, node):
        tok = (fr.module.path, fr.func.qual if fr.func else "", node.lineno, node.col_offset)
        W, P = st.W, st.P
        st.P = E0
        self.acc.append(Eff())
        out = E0
        rest = list(args[1:]) if name == "submit" else [self.elements(x, st, fr, node) for x in args[1:]]
        for f in args[0]:
            out |= self.call1(f, rest, star, kw, None, st, fr, node)
        e = self.acc.pop()
        st.W, st.P = W | st.W, P
        exprs = []

        def flat(x):
            if isinstance(x, (ast.Tuple, ast.List)):
                for y in x.elts:
                    flat(y)
            elif isinstance(x, ast.Starred):
                flat(x.value)
            else:
                exprs.append((x, self.ev(x, st, fr)))
        for x in node.args[1:]:
            flat(x)
        for k in node.keywords:
            flat(k.value)
        j = self.jobs.setdefault(tok, dict(eff=Eff(), node=node, fn=fr.func.node if fr.func else None, exprs={}, funcs=set(), map=name == "map"))
        j["eff"].add(e)
        for x, v in exprs:
            j["exprs"][x] = j["exprs"].get(x, E0) | v
        for f in args[0]:
            if f[0] == "f":
                j["funcs"].add(self.funs[f[1]][0])
        age = "one"
        for p in P:
            if p[0] != "job":
                continue
            kind = "other" if p[1] != tok else "again" if p[2].startswith("old") else "loop"
            self.over[(p[1], tok, kind)] = None
            if p[1] == tok:
                age = "many"
        if name == "map":
            self.over[(tok, tok, "loop")] = None
            st.P = P | {("job", tok, "many")}
            it = self.alloc("iter", None, node, fr, extra="exmap")
            self.put(it[1], "[]", out)
            self.jobs[tok]["iter"] = it[1]
            return frozenset([it])
        st.P = frozenset(x for x in P if not (x[1] == tok and x[2] == "one")) | {("job", tok, age)}
        return frozenset([("fut", out, tok)])

    def elements(self, v, st, fr, node, dictvals=False):
        for a in v:
            if a[0] == "o" and self.objs[a[1]].kind == "iter":
                for t, j in self.jobs.items():
                    if j.get("iter") == a[1]:
                        self.asked.add(t)
                        if st is not None and not isinstance(node, (ast.Starred,)):
                            st.P = frozenset(x for x in st.P if x[1] != t)
        return super().elements(v, st, fr, node, dictvals)

    def toks(self, v):
        return {a[2] for a in v if a[0] == "fut" and len(a) > 2}

    def awaited(self, st, toks):
        self.asked |= toks
        st.P = frozenset(x for x in st.P if x[1] not in toks) | {("await", t, "") for t in toks if not any(x[1] == t for x in st.P)}

    def call_ext(self, name, args, star, kw, st, fr, node):
        if name in ("concurrent.futures.wait", "concurrent.futures.as_completed") and args:
            el = super().elements(args[0], st, fr, node)
            st.P = frozenset(x for x in st.P if x[1] not in self.toks(el))
            if name.endswith("as_completed"):
                it = self.alloc("iter", None, node, fr, extra="completed")
                self.put(it[1], "[]", el)
                return frozenset([it])
        return super().call_ext(name, args, star, kw, st, fr, node)

    # ------------------------------------------------------------------ the code that goes on
    def stmt(self, s, st, fr):
        if isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
            return super().stmt(s, st, fr)
        return self.watched(st, fr, s, lambda: super(Sched, self).stmt(s, st, fr))

    def assign(self, t, v, st, fr, node):
        if isinstance(node, ast.For):
            return self.watched(st, fr, node, lambda: super(Sched, self).assign(t, v, st, fr, node))
        return super().assign(t, v, st, fr, node)

    def branch(self, test, st, fr):
        out = []
        self.watched(st, fr, test, lambda: out.append(super(Sched, self).branch(test, st, fr)))
        return out[0]

    def watched(self, st, fr, node, go):
        P = {x[1] for x in st.P if x[0] == "job"}
        self.acc.append(Eff())
        r = go()
        e = self.acc.pop()
        self.acc[-1].add(e)
        after = st.P if r is None or not hasattr(r, "P") else r.P
        for t in P:
            if any(x[1] == t for x in after):
                self.mainover.setdefault((t, (fr.module.path, getattr(node, "lineno", 0), fr.func.qual if fr.func else "")), Eff()).add(e)
        return r

    def comp(self, e, st, fr, emit):
        old = {x for x in st.P if x[0] == "job"}
        super().comp(e, st, fr, emit)
        new = set()
        for x in st.P:
            if x[0] == "job" and x not in old and x[2] == "one":
                self.over[(x[1], x[1], "loop")] = None
                x = ("job", x[1], "many")
            new.add(x)
        st.P = frozenset(new)
        if len(e.generators) == 1 and isinstance(e.generators[0].target, ast.Name) and not e.generators[0].ifs:
            elt = e.elt if hasattr(e, "elt") else e.value
            if asks(elt, e.generators[0].target.id):
                self.awaited(st, self.toks(super().elements(self.ev(e.generators[0].iter, st, fr), st, fr, e)))

    def loop(self, fr, head, step):
        head.P = frozenset(("job", x[1], {"one": "old1", "many": "oldmany"}.get(x[2], x[2])) if x[0] == "job" else x for x in head.P)
        return super().loop(fr, head, step)

    def s_For(self, s, st, fr):
        r = super().s_For(s, st, fr)
        if r is not None and isinstance(s.target, ast.Name) and any(asks(b, s.target.id) for b in s.body) and \
                not any(isinstance(b, (ast.Break, ast.Continue, ast.Return)) for x in s.body for b in ast.walk(x)):
            self.awaited(r, self.toks(r.env.get(s.target.id, E0)))
        return r

    def s_With(self, s, st, fr):
        pool = any(a[0] == "x" for it in s.items for a in (self.ev(it.context_expr, st, fr) or E0))
        r = super().s_With(s, st, fr)
        if pool and r is not None:
            r.P = E0
        return r

    # ------------------------------------------------------------------ verdicts
    def direct(self, job, oid):
        """argument expressions of the job that are this object, or hold it in a field"""
        out = []
        for x, v in job["exprs"].items():
            for a in v:
                if a == ("o", oid) or a[0] == "o" and self.objs[a[1]].cls is not None and any(
                        ("o", oid) in self.heap.get((a[1], f), E0) for f in self.fields.get(a[1], ()) if f not in ("[]", "keys")):
                    out.append(x)
                    break
        return out

    def invariant(self, job, x, kind):
        lo = loops_around(job["fn"], job["node"]) if job["fn"] is not None else []
        if kind == "loop":
            lo = lo[:1]
        for l in lo:
            if names(x) & assigned(l):
                return False
            fields = {n.attr for n in ast.walk(l) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            if fields & {n.attr for n in ast.walk(x) if isinstance(n, ast.Attribute)}:
                return False
        return not any(isinstance(n, ast.Call) for n in ast.walk(x))

    def sameobject(self, a, b, oid, kind):
        """is it surely one object both jobs work on -> the expression, or None"""
        for x in self.direct(a, oid):
            if not self.invariant(a, x, kind):
                continue
            for y in self.direct(b, oid):
                if ast.dump(x) == ast.dump(y) and self.invariant(b, y, kind):
                    return x
        return None

    def cells(self, job, expr):
        """positions of the container `expr` the job works on -> ([(offset, is written)], argument expression) or None"""
        if len(job["funcs"]) != 1:
            return None
        fi = next(iter(job["funcs"]))
        args = job["node"].args[1:]
        pn = [a.arg for a in fi.node.args.args]
        if isinstance(fi.node, ast.Lambda) or any(isinstance(x, ast.Starred) for x in args) or len(args) != len(pn) or job["map"]:
            return None
        try:
            p = pn[[ast.dump(x) for x in args].index(ast.dump(expr))]
        except ValueError:
            return None
        if p in assigned(fi.node):
            return None
        subs, bases = [], set()
        seen = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
                seen.add(n.value)
                q = affine(n.slice)
                if q is None or q[0] is not None and (q[0] not in pn or q[0] in assigned(fi.node)):
                    return None
                if q[0] is None:
                    subs.append((None, q[1], isinstance(n.ctx, ast.Store)))
                    continue
                a = affine(args[pn.index(q[0])])
                if a is None:
                    return None
                subs.append((a[0], a[1] + q[1], isinstance(n.ctx, ast.Store)))
        if any(isinstance(n, ast.Name) and n.id == p and n not in seen for n in ast.walk(fi.node)):
            return None
        bases = {s[0] for s in subs}
        if len(bases) != 1:
            return None
        return [(o, w) for _, o, w in subs], bases.pop()

    def stride(self, job, var):
        """loop variable -> (name the range starts from, offset, step) | 'distinct' | None"""
        for l in loops_around(job["fn"], job["node"]):
            if isinstance(l, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(l.generators) == 1:
                t, it, body = l.generators[0].target, l.generators[0].iter, []
            elif isinstance(l, ast.For):
                t, it, body = l.target, l.iter, l.body
            else:
                t = None
            if t is None or not isinstance(t, ast.Name) or t.id != var:
                if var in assigned(l):
                    return None
                continue
            if any(isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store) for b in body for n in ast.walk(b)):
                return None
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
                a = affine(it.args[0]) if len(it.args) > 1 else (None, 0)
                s = it.args[2] if len(it.args) > 2 else ast.Constant(1)
                if a is not None and isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value > 0:
                    return a + (s.value,)
                return None
            return "distinct"
        return None

    def overlap(self, a, b, expr, kind):
        """do the cells of two jobs meet -> True | False | None (unknown)"""
        ca, cb = self.cells(a, expr), self.cells(b, expr)
        if ca is None or cb is None:
            return True if kind == "again" else None
        if ca[1] is None and cb[1] is None:
            return any(x == y and (w or v) for x, w in ca[0] for y, v in cb[0])
        if ca[1] is None or cb[1] is None:
            return None
        sa, sb = self.stride(a, ca[1]), self.stride(b, cb[1])
        if kind == "again":
            return True
        if sa is None or sb is None:
            return None
        if "distinct" in (sa, sb):
            return False if kind == "loop" and all(o == 0 for o, _ in ca[0]) else None
        if sa[0] != sb[0] or sa[2] != sb[2]:
            return None
        step = sa[2]
        for x, w in ca[0]:
            for y, v in cb[0]:
                d = (sa[1] + x) - (sb[1] + y)
                if (w or v) and d % step == 0 and (kind != "loop" or d != 0):
                    return True
        return False

    def verdict(self, a, b, kind):
        """-> (definite conflicts, unknown ones): texts"""
        ea, eb = a["eff"], b["eff"]
        own = ea.A | eb.A
        bad, unk = [], []
        for loc in set(ea.W) | set(eb.W):
            other = [e for e, o in ((ea, eb), (eb, ea)) if loc in e.W and (loc in o.W or loc in o.R)]
            if not other or loc[0] in own:
                continue
            hows = {h for e in other for h in e.W[loc]}
            if loc not in ea.R and loc not in eb.R and len({h[3:] for h in hows}) == 1 and all(len(h) > 3 for h in hows):
                continue        # all of them store the same constant
            oid, field = loc
            if isinstance(oid, tuple):
                bad.append("variable %s (%s)" % (field, where(hows)))
                continue
            o = self.objs[oid]
            if o.kind == "user":
                continue
            what = "%s of a %s (%s)" % ("items" if field == "[]" else field, o.cls.name if o.cls else o.kind, where(hows))
            x = self.sameobject(a, b, oid, kind)
            if x is None:
                unk.append(what)
            elif field in ("[]", "keys") and all(h[0] == "item store" for h in hows):
                r = self.overlap(a, b, x, kind)
                if r:
                    bad.append(what)
                elif r is None:
                    unk.append(what)
            elif field in ("[]", "keys") and all(h[0] in ("item store", "attribute store") for h in hows):
                unk.append(what)
            else:
                bad.append(what)
        return bad, unk

    def against_main(self, j, e):
        bad, unk = [], []
        ej = j["eff"]
        for loc in set(ej.W) | set(e.W):
            if not (loc in ej.W and (loc in e.W or loc in e.R) or loc in e.W and loc in ej.R) or loc[0] in ej.A:
                continue
            oid, field = loc
            hows = ej.W.get(loc, set()) | e.W.get(loc, set())
            if isinstance(oid, tuple):
                bad.append("variable %s" % field)
                continue
            o = self.objs[oid]
            what = "%s of a %s (%s)" % ("items" if field == "[]" else field, o.cls.name if o.cls else o.kind, where(hows))
            x = next((x for x in self.direct(j, oid) if self.invariant(j, x, "again")), None)
            if x is None or o.kind == "user":
                unk.append(what)
            elif field in ("[]", "keys") and all(h[0] in ("item store", "attribute store") for h in hows):
                c = self.cells(j, x)
                if c is not None and c[1] is None:
                    bad.append(what)        # one fixed cell
                else:
                    unk.append(what)
            else:
                bad.append(what)
        return bad, unk


def where(hows):
    return ", ".join(sorted({"%s at line %d" % (h[0], h[2]) if h[2] else h[0] for h in hows})[:3])


def affine(e):
    """name + constant -> (name | None, constant)"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return None, e.value
    if isinstance(e, ast.Name):
        return e.id, 0
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        l, r = affine(e.left), affine(e.right)
        if l is None or r is None:
            return None
        k = 1 if isinstance(e.op, ast.Add) else -1
        if r[0] is None:
            return l[0], l[1] + k * r[1]
        if l[0] is None and k == 1:
            return r[0], l[1] + r[1]
    return None


# ---------------------------------------------------------------------- clients
def scenarios():
    out = []
    keep = ("merge_sort_parallel", "brick_sort_parallel", "matrix_multiply_parallel", "bfs_parallel", "mst_parallel_kruskal",
            "mst_parallel_prim", "kahn_parallel")
    for sc in clients.SORTSC + clients.ALG:
        for k in sc["algs"]:
            if k in keep and "used" not in sc["name"]:
                out.append(dict(sc, name="%s/%s" % (sc["name"], k), algs={k: sc["algs"][k]}))
    return out


def run(sc):
    try:
        P = Program(extra={"client": clients.alg_source(sc)})
        I = Sched(P)
        k = next(iter(sc["algs"]))

        def drv(I):
            I.acc, I.keys = [Eff()], []
            I.over, I.mainover, I.left = {}, {}, {}
            I.phase = "setup"
            s = I.call_function_named("client", "setup")
            I.phase = "a_" + k
            fr = I.root_frame("client")
            from .pta import State
            st = State({}, E0)
            b = P.lookup("client", "a_" + k)
            I.invoke(b[1], None, None, [s], {}, st, fr, b[1].node)
            for x in st.P:
                if x[0] == "job":
                    I.left[x[1]] = k
        I.run(drv)
    except (AnalysisBroken, RecursionError) as e:
        return dict(name=sc["name"], error=str(e)[:200])
    out = dict(name=sc["name"], bad=[], unk=[], sites=[], pairs=0, reads=0, writes=0, unsupported=sorted(I.unsupported),
               funcs=sorted({"%s:%s" % (f.module.path, f.qual) for f in I.funcs_seen if not f.module.path.startswith("<client")}))
    site = lambda t: "%s:%d" % (t[0], t[2])      # noqa: E731
    for t, j in I.jobs.items():
        out["sites"].append("%s in %s" % (site(t), t[1]))
        out["reads"] += len(j["eff"].R)
        out["writes"] += len(j["eff"].W)
        if t not in I.asked:
            out["bad"].append((site(t), t[1], "the outcome of the job is never asked for: what it raises is lost", "outcome"))
        if t in I.left:
            out["bad"].append((site(t), t[1], "the job may still be running when the algorithm returns", "left"))
    for a, b, kind in I.over:
        if a not in I.jobs or b not in I.jobs:
            continue
        out["pairs"] += 1
        bad, unk = I.verdict(I.jobs[a], I.jobs[b], kind)
        what = "two of these jobs" if kind == "loop" else "this job and one of an earlier round" if kind == "again" else "this job and the one of line %d" % a[2]
        for x in bad:
            out["bad"].append((site(b), b[1], "%s may run at the same time and share %s" % (what, x), "shared"))
        for x in unk:
            out["unk"].append("%s %s: %s may run at the same time; %s not shown to be disjoint" % (site(b), b[1], what, x))
    for (t, m), e in I.mainover.items():
        if t not in I.jobs:
            continue
        out["pairs"] += 1
        bad, unk = I.against_main(I.jobs[t], e)
        for x in bad:
            out["bad"].append((site(t), t[1], "the job may be running while line %d of %s goes on; they share %s" % (m[1], m[2], x), "shared"))
        for x in unk:
            out["unk"].append("%s %s: may be running during line %d; %s not shown to be disjoint" % (site(t), t[1], m[1], x))
    return out


def check_schedules(rep, tier):
    rep.rule("jobs that may run at the same time share nothing that one of them writes; every job has ended, and what it raised has reached the caller, before the algorithm goes on with its effects or returns")
    scs = scenarios()
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(run, scs, chunksize=1)
    sites, funcs = set(), set()
    broken = 0
    for r in res:
        rep.count("client_programs")
        if "error" in r:
            broken += 1
            rep.undecide("%s: %s" % (r["name"], r["error"]))
            continue
        sites |= set(r["sites"])
        funcs |= set(r["funcs"])
        rep.count("obligations", len(r["sites"]) * 2 + r["pairs"])
        rep.count("overlapping_pairs", r["pairs"])
        rep.count("locations_read_by_jobs", r["reads"])
        rep.count("locations_written_by_jobs", r["writes"])
        for w, fn, text, rule in r["bad"]:
            rep.violate(rule, w, fn, text)
        for u in r["unk"]:
            rep.undecide(u)
        for u in r["unsupported"]:
            rep.undecide("%s: unsupported construct %s" % (r["name"], u))
        if not r["sites"]:
            rep.undecide("%s: no job is submitted" % r["name"])
    if broken == len(res):
        raise AnalysisBroken("no client program could be analysed")
    P = Program()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "submit" and \
                    not any(s.startswith("%s:%d " % (m.path, n.lineno)) for s in sites):
                rep.undecide("%s:%d: a job no client program reaches" % (m.path, n.lineno))
    rep.counts["functions_analysed"] = len(funcs)
    rep.counts["job_sites"] = len(sites)
    rep.sample(sorted(sites))
    return rep
