"""Development tool: behaviour-preserving rewrites of the whole package, applied to scratch
copies; the stable tests must still pass and every check must stay quiet.
usage: refactor.py [-k] [names]   (-k keeps the copy)"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class T(ast.NodeTransformer):
    n = 0

    def fresh(self, b="tmp"):
        T.n += 1
        return "%s_%d" % (b, T.n)


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


class Plain(T):
    pass


class Noop(T):
    """a statement without effect after the docstring and before each return"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if ast.get_docstring(f) is not None else 0
        f.body[i:i] = [ast.Assign([name(self.fresh("unused"), ast.Store())], ast.Constant(0))]
        return f

    def visit_Return(self, r):
        return [ast.Pass(), ast.Expr(ast.Constant(None)), r]


class FlipIf(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class WhileTrue(T):
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class Temps(T):
    """results and assigned values go through a fresh local first"""
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Constant, ast.Name)):
            return r
        t = self.fresh("res")
        return [ast.Assign([name(t, ast.Store())], r.value), ast.Return(name(t))]

    def visit_Assign(self, a):
        if getattr(self, "depth", 0) == 0 or isinstance(a.value, (ast.Constant, ast.Name, ast.Tuple)) or len(a.targets) > 1:
            return a
        t = self.fresh("val")
        return [ast.Assign([name(t, ast.Store())], a.value), ast.Assign(a.targets, name(t))]

    def visit_FunctionDef(self, f):
        self.depth = getattr(self, "depth", 0) + 1
        self.generic_visit(f)
        self.depth -= 1
        return f


class ForRange(T):
    """for i in range(a, b) -> while; only without continue and with plain steps"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) in (1, 2)
                and isinstance(n.target, ast.Name)) or n.orelse:
            return n
        if any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        lo, hi = (ast.Constant(0), it.args[0]) if len(it.args) == 1 else it.args
        c, e = self.fresh("pos"), self.fresh("stop")
        return [ast.Assign([ast.Tuple([name(c, ast.Store()), name(e, ast.Store())], ast.Store())], ast.Tuple([lo, hi], ast.Load())),
                ast.While(ast.Compare(name(c), [ast.Lt()], [name(e)]),
                          [ast.Assign([name(n.target.id, ast.Store())], name(c)),
                           ast.AugAssign(name(c, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]


class Extract(T):
    """the body of every method / function moves into a helper"""
    def visit_Module(self, m):
        m.body = self.stmts(m.body, False)
        return m

    def stmts(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = self.stmts(s.body, True)
                out.append(s)
            elif isinstance(s, ast.FunctionDef) and self.ok(s, cls):
                out += self.split(s, cls)
            else:
                out.append(s)
        return out

    def ok(self, f, cls):
        if f.name.startswith("__") or f.args.vararg or f.args.kwarg or f.args.kwonlyargs:
            return False
        src = ast.dump(f)
        if "yield" in src.lower() or "id='super'" in src or "id='locals'" in src:
            return False
        for d in f.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod", "property")):
                return False
        # private attribute names (name mangling) are kept by staying in the class
        return True

    def split(self, f, cls):
        ps = [a.arg for a in f.args.args]
        h = copy.deepcopy(f)
        h.name = "_work_of_" + f.name.strip("_")
        h.args.defaults = []
        deco = [d.id for d in f.decorator_list]
        h.decorator_list = [d for d in h.decorator_list if d.id != "property"]
        if ast.get_docstring(h) is not None:
            h.body = h.body[1:] or [ast.Pass()]
        h.returns = None
        if not cls:
            fn, av = name(h.name), ps
        elif "staticmethod" in deco:
            return [f]
        else:
            fn, av = ast.Attribute(name(ps[0]), h.name, ast.Load()), ps[1:]
        # a subclass overriding f may call super; keep helper names unique per class
        f.body = f.body[:1] if ast.get_docstring(f) is not None else []
        f.body.append(ast.Return(ast.Call(fn, [name(a) for a in av], [])))
        return [h, f]


class ExtractU(Extract):
    """same, helper name unique to the class"""
    def visit_Module(self, m):
        self.cur = ""
        return Extract.visit_Module(self, m)

    def stmts(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.cur = s.name
                s.body = self.stmts(s.body, True)
                out.append(s)
                self.cur = ""
            elif isinstance(s, ast.FunctionDef) and self.ok(s, cls):
                r = self.split(s, cls)
                if len(r) == 2 and cls:
                    r[0].name += "_" + self.cur
                    r[1].body[-1].value.func.attr = r[0].name
                out += r
            else:
                out.append(s)
        return out


class Unwrap(T):
    """guard clauses become if/else, elif chains become nested"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.nest(f.body)
        return f

    def nest(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                rest = self.nest(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body


class Aug(T):
    def visit_AugAssign(self, a):
        if isinstance(a.value, ast.Constant) and isinstance(a.value.value, int) and isinstance(a.target, (ast.Name, ast.Attribute)):
            v = copy.deepcopy(a.target)
            v.ctx = ast.Load()
            return ast.Assign([a.target], ast.BinOp(v, a.op, a.value))
        return a


class Mirror(T):
    """operands of == / != / is swapped"""
    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot)):
            return ast.Compare(c.comparators[0], c.ops, [c.left])
        if len(c.ops) == 1 and isinstance(c.ops[0], ast.Lt) and isinstance(c.left, (ast.Name, ast.Constant)) \
                and isinstance(c.comparators[0], ast.Constant):
            return ast.Compare(c.comparators[0], [ast.Gt()], [c.left])
        return c


class NotIs(T):
    def visit_Compare(self, c):
        self.generic_visit(c)
        m = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
        if len(c.ops) == 1 and type(c.ops[0]) in (ast.IsNot, ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(c.left, [m[type(c.ops[0])]()], c.comparators))
        return c


class BoolSplit(T):
    """if a and b: S -> if a: if b: S"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class IfExp(T):
    """x = a if c else b  ->  if c: x = a else: x = b (and for return)"""
    def visit_Assign(self, a):
        if isinstance(a.value, ast.IfExp):
            v = a.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(a.targets), v.body)], [ast.Assign(a.targets, v.orelse)])
        return a

    def visit_Return(self, r):
        if isinstance(r.value, ast.IfExp):
            v = r.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return r


class Compr(T):
    """x = [e for t in it if c] -> loop with append"""
    def visit_Assign(self, a):
        v = a.value
        if not (isinstance(v, ast.ListComp) and len(v.generators) == 1 and getattr(self, "depth", 0)):
            return a
        g = v.generators[0]
        t = self.fresh("acc")
        ren = {}
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                ren[x.id] = self.fresh("it")
        for part in [v.elt, g.target] + g.ifs:
            for x in ast.walk(part):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
        body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []),
                ast.Assign(a.targets, name(t))]

    def visit_FunctionDef(self, f):
        self.depth = getattr(self, "depth", 0) + 1
        self.generic_visit(f)
        self.depth -= 1
        return f


class Rename(T):
    """local variables (not parameters) renamed"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not f for x in ast.walk(f)):
            return f
        ps = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for v in (f.args.vararg, f.args.kwarg):
            if v:
                ps.add(v.arg)
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
        return f


class TupleSplit(T):
    """a, b = x, y -> temporaries"""
    def visit_Assign(self, a):
        if len(a.targets) == 1 and isinstance(a.targets[0], ast.Tuple) and isinstance(a.value, ast.Tuple) \
                and len(a.targets[0].elts) == len(a.value.elts) and not any(isinstance(x, ast.Starred) for x in a.value.elts):
            ts = [self.fresh("pt") for _ in a.value.elts]
            return [ast.Assign([name(t, ast.Store())], v) for t, v in zip(ts, a.value.elts)] + \
                   [ast.Assign([tg], name(t)) for t, tg in zip(ts, a.targets[0].elts)]
        return a


class ForIdx(T):
    """for x in NAME (a plain local list)  -> iter over list(NAME)?  kept simple: for _, x in enumerate(it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name):
            return ast.For(ast.Tuple([name(self.fresh("idx"), ast.Store()), n.target], ast.Store()),
                           ast.Call(name("enumerate"), [n.iter], []), n.body, n.orelse)
        return n


class GetSet(T):
    """self.x read through getattr, augmented attribute writes split"""
    def visit_AugAssign(self, a):
        if isinstance(a.target, ast.Attribute) and isinstance(a.target.value, ast.Name):
            v = copy.deepcopy(a.target)
            v.ctx = ast.Load()
            t = self.fresh("old")
            return [ast.Assign([name(t, ast.Store())], v), ast.Assign([a.target], ast.BinOp(name(t), a.op, a.value))]
        return a


class CondVar(T):
    """if/while-free: if COND -> flag = COND; if flag"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, (ast.Name, ast.Constant)):
            return n
        t = self.fresh("cond")
        return [ast.Assign([name(t, ast.Store())], n.test), ast.If(name(t), n.body, n.orelse)]

    def visit_Module(self, m):
        for s in m.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.generic_visit(s)
        return m


class Guard(T):
    """statements after `if c: raise` untouched; `raise` moved into a nested helper is too much: wrap the
    exception object in a local first"""
    def visit_Raise(self, r):
        if r.exc is None or not isinstance(r.exc, ast.Call):
            return r
        t = self.fresh("err")
        return [ast.Assign([name(t, ast.Store())], r.exc), ast.Raise(name(t), r.cause)]


class ElseRet(T):
    """if c: return A else: return B  ->  if c: return A; return B"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        out = []
        for s in f.body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                out.append(ast.If(s.test, s.body, []))
                out += s.orelse
            else:
                out.append(s)
        f.body = out
        return f


ALL = dict(plain=Plain, noop=Noop, flipif=FlipIf, whiletrue=WhileTrue, temps=Temps, forrange=ForRange, extract=ExtractU, unwrap=Unwrap,
           aug=Aug, mirror=Mirror, notis=NotIs, boolsplit=BoolSplit, ifexp=IfExp, compr=Compr, rename=Rename, tuplesplit=TupleSplit,
           foridx=ForIdx, getset=GetSet, condvar=CondVar, guard=Guard, elseret=ElseRet)


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=cwd, env=dict(os.environ, **(env or {})))


def rewrite(r, tn):
    for dp, dn, fn in os.walk(r + "/pydatastructs"):
        if "tests" in dp or "_backend" in dp:
            continue
        for f in fn:
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.join(dp, f)
                t = ast.parse(open(p).read())
                t = ast.fix_missing_locations(ALL[tn]().visit(t))
                open(p, "w").write(ast.unparse(t) + "\n")


def one(tn):
    tmp = tempfile.mkdtemp(prefix="ref_", dir="/tmp")
    r = tmp + "/repo"
    out = []
    try:
        sh("cp -a /repo %s" % r)
        sh("git checkout -q -- .", cwd=r)
        rewrite(r, tn)
        sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 2 "
           "--doctest-modules --ignore-glob='*/tests/benchmarks' -o junit_family=xunit2 --junitxml=%s/j.xml pydatastructs; "
           "/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (r, tmp, tmp, tmp), cwd=r)
        try:
            ok = set(json.load(open(tmp + "/o.json"))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        except Exception as e:
            miss = [repr(e)]
        if miss:
            out.append("TESTS-FAIL %d %s" % (len(miss), miss[:2]))
        for p in PIDS:
            c = sh("python3 %s/sa/check.py %s" % (V, p), cwd=V, env={"SA_REPO": r, "SA_NOEVIDENCE": "1"})
            if c.returncode:
                out.append("%s exit %d\n%s" % (p, c.returncode, (c.stdout + c.stderr)[-1500:]))
        return tn, out
    finally:
        if "-k" in sys.argv:
            print("kept", r)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def main():
    global PIDS
    av = [a for a in sys.argv[1:] if not a.startswith("-")]
    PIDS = [a for a in av if a[0] == "P" and a[1:].isdigit()] or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    ids = [a for a in av if a in ALL] or list(ALL)
    with ThreadPoolExecutor(3) as ex:
        for tn, out in ex.map(one, ids):
            print("==", tn, "QUIET" if not out else "\n".join(out), flush=True)
    sh("rm -rf /tmp/sa_evidence_*")


if __name__ == "__main__":
    main()
