"""Runs engine 1 on the client scenarios and returns plain facts."""
import multiprocessing
import os
import time

from .program import Program, AnalysisBroken
from .pta import Interp
from . import clients


def odesc(I, atom):
    if atom[0] == "o":
        o = I.objs[atom[1]]
        n = o.cls.name if o.cls else o.kind
        return dict(name=n, cls=o.cls.name if o.cls else None, kind=o.kind, path=o.site[0],
                    line=o.site[1], phase=o.phase, func=o.func)
    if atom[0] == "cls":
        return dict(name="class " + atom[1].name, cls=None, kind="class", path="", line=0, phase="global", func="")
    if atom[0] == "mod":
        return dict(name="module " + str(atom[1]), cls=None, kind="module", path="", line=0, phase="global", func="")
    return dict(name="user:" + str(atom[1]), cls=None, kind="user", path="", line=0, phase="user", func="")


def run(sc):
    """-> dict of facts for one scenario"""
    t0 = time.time()
    isalg = "algs" in sc
    src = clients.alg_source(sc) if isalg else clients.source(sc)
    P = Program(extra={"client": src})
    I = Interp(P)
    I.reflect_own = sc.get("own", ())
    if isalg:
        ph = ["a_" + k for k in sc["algs"]]
    else:
        ph = ["q_" + k for k in sc["queries"]] + ["m_" + k for k in sc["mutators"]]
    rets, raises, holder = {}, {}, {}

    def drv(I):
        I.phase = "setup"
        s = I.call_function_named("client", "setup")
        holder["s"] = s
        for q in ph:
            I.phase = q
            rets[q] = I.call_function_named("client", q, [s])
            raises[q] = I.last_raises

    I.run(drv)
    wr = []
    for w in I.writes:
        d = odesc(I, w["atom"])
        wr.append(dict(phase=w["phase"], obj=d, oid=w["atom"][1] if w["atom"][0] == "o" else None,
                       field=w["field"], path=w["path"], line=w["line"],
                       func=w["func"], how=w["how"], pre=(d["phase"] != w["phase"])))
    rs = []
    for q in ph:
        for rk, W in raises[q].items():
            rs.append(dict(phase=q, path=rk[0], line=rk[1], exc=rk[2], func=rk[3],
                           W=[i for i in W if wr[i]["pre"]]))
    arg_oids = {a[1] for a in holder["s"] if a[0] == "o"}
    held = {}
    for (oid, fld), v in I.heap.items():
        for a in v:
            if a[0] == "o":
                held.setdefault(a[1], set()).add(str(fld))
    for w in wr:
        w["held"] = sorted(held.get(w["oid"], ()))
        w["arg"] = w["oid"] in arg_oids
    subj = sorted({I.objs[a[1]].cls.name for a in holder["s"] if a[0] == "o" and I.objs[a[1]].cls})
    mros = set()
    for a in holder["s"]:
        if a[0] == "o" and I.objs[a[1]].cls:
            mros |= {c.name for c in P.mro(I.objs[a[1]].cls)}
    retd = {}
    reach = I.reachable(holder["s"])
    for q in ph:
        out = []
        stack = list(rets[q] or ())
        for a in stack:
            if a[0] == "o":
                out.append(dict(odesc(I, a), kept=a[1] in reach, common=_common(I, a, holder["s"])))
            elif a[0] == "tup":
                for p in a[1]:
                    stack.extend(p)
        retd[q] = dict(objs=out, empty=not rets[q])
    # objects of every phase reachable from the returned structure
    glob = [odesc(I, ("o", i)) for i in reach if I.objs[i].phase == "global"
            and I.objs[i].kind in ("list", "dict", "set", "inst", "deque")]
    return dict(name=sc["name"], phases=ph, writes=wr, raises=rs, subject=subj, mro=sorted(mros),
                rets=retd, globals_reached=glob, unsupported=dict(I.unsupported),
                funcs=sorted({"%s:%s" % (f.module.path, f.qual) for f in I.funcs_seen
                              if not f.module.path.startswith("<client")}),
                nobj=len(I.objs), iters=I.iterations, secs=time.time() - t0, digest=P.digest.hexdigest()[:16],
                phase_funcs={q: sorted({"%s:%s" % (f.module.path, f.qual) for f in I.phase_funcs.get(q, ())
                                        if not f.module.path.startswith("<client")}) for q in ph + ["setup"]},
                edges={q: sorted(I.edges.get(q, ())) for q in ph}, dead=sorted(I.dead), ext_calls=sorted(I.ext_calls), ext_args=sorted({(k[0], k[1], y[1]) for k, v in I.ext_args.items() for y in v}), atoms={q: sorted({_atomdesc(I, a) for a in rets[q] or ()}) for q in ph},
                compares=_compares(I), user_calls=_ucalls(I), compfields=_compfields(I), compkept=_compkept(I, holder["s"]) if "USER('comp')" in sc["setup"] and 'binomial' not in sc["name"] else None,
                derefs=[(k, sorted(map(str, v)) if isinstance(v, (set, frozenset, list)) else str(v)) for k, v in I.derefs.items()])


def _common(I, a, subj):
    """fields through which a returned instance and the structure hold one and the same object"""
    if a in subj or I.objs[a[1]].cls is None or not any(I.objs[b[1]].cls is I.objs[a[1]].cls for b in subj if b[0] == "o"):
        return []
    mine = {b[1] for s in subj if s[0] == "o" for f in I.fields.get(s[1], ()) for b in I.get(s[1], f) if b[0] == "o"}
    return sorted(str(f) for f in I.fields.get(a[1], ()) for b in I.get(a[1], f)
                  if b[0] == "o" and b[1] in mine and I.objs[b[1]].kind != "user" and I.objs[b[1]].phase != "global")


def runs_only_under(f, phase, func, tops):
    """func is entered in the phase only through a call of one of `tops`"""
    succ = {}
    for a, b in f["edges"].get(phase, ()):
        succ.setdefault(a, set()).add(b)
    roots = {a for a in succ if a == "" or a == phase or a.startswith("<")} | {phase}
    seen, todo = set(roots), list(roots)
    while todo:
        for b in succ.get(todo.pop(), ()):
            if b not in seen and b not in tops:
                seen.add(b)
                todo.append(b)
    return func not in seen


def _atomdesc(I, a):
    if a[0] == "o":
        o = I.objs[a[1]]
        return ("o", o.cls.name if o.cls else o.kind)
    if a[0] in ("c", "t", "u", "ext", "enum"):
        return (a[0], str(a[-1]) if a[0] != "c" else repr(a[2]))
    return (a[0], "")


def _labels(v):
    out = set()
    for a in v:
        out.add("u:" + a[1] if a[0] == "u" else a[0])
    return sorted(out)


def _compares(I):
    return [dict(path=k[0], func=k[1], line=k[2], op=k[4], left=_labels(l), right=_labels(r), phase=ph)
            for k, v in I.compares.items() for l, r, ph in v]


def _ucalls(I):
    return [dict(path=k[0], func=k[1], line=k[2], label=k[3][1], args=[_labels(x) for x in args], phase=ph)
            for k, v in I.user_calls.items() for args, ph in v]


def _compfields(I):
    """names of functions that share an object field with the caller's comparator"""
    out = set()
    for (oid, fld), v in I.heap.items():
        if any(a[0] == "u" and a[1] == "comp" for a in v):
            out |= {I.funs[a[1]][0].qual for a in v if a[0] == "f"}
    return sorted(out)


def _compkept(I, v):
    """may the comparator be reached from the structure (directly, or captured by a function it holds)"""
    import ast
    kept = False
    for a in v:
        if a[0] != "o" or I.objs[a[1]].cls is None:
            continue
        ok = False
        for i in I.reachable(frozenset([a])):
            for fld in I.fields.get(i, ()):
                for x in I.get(i, fld):
                    if x[0] == "u" and x[1] == "comp":
                        ok = True
                    elif x[0] == "f":
                        n = I.funs[x[1]][0].node
                        own = {p.arg for p in ast.walk(n) if isinstance(p, ast.arg)}
                        if any(isinstance(m, ast.Name) and m.id not in own for m in ast.walk(n)):
                            ok = True
                    elif x[0] in ("bm", "x", "ext", "partial"):
                        ok = True
        if not ok:
            return False
        kept = True
    return kept


def _safe(sc):
    try:
        return run(sc)
    except AnalysisBroken as e:
        return dict(name=sc["name"], error=str(e))
    except RecursionError as e:
        return dict(name=sc["name"], error="recursion " + str(e)[:80])


def run_all(scs):
    scs = sorted(scs, key=lambda s: -COST.get(s["name"], 0))
    n = min(8, os.cpu_count() or 1, len(scs))
    if n <= 1:
        return [_safe(s) for s in scs]
    with multiprocessing.get_context("fork").Pool(n) as p:
        return p.map(_safe, scs, chunksize=1)


COST = {"RedBlackTree": 9, "SplayTree": 9, "BinarySearchTree": 8, "AVLTree": 8, "Treap": 8,
        "CartesianTree": 8, "Multiset": 8, "BinomialHeap": 5}
