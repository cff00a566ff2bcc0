"""Whole-program abstract interpreter for Python source (engine 1).

Flow-sensitive locals, flow-insensitive allocation-site heap (call-string
context), constant propagation with branch pruning, calls interpreted per
abstract argument tuple, whole thing iterated to a fixpoint.  It records
  * writes   (which abstract object, field, where, in which phase)
  * raises   (with the set of writes that may precede them on the path)
  * ordering comparisons between abstract values
  * dereferences of None
Nothing of the repository is executed."""
import ast
import sys

from .program import FuncInfo, ClassInfo, AnalysisBroken

sys.setrecursionlimit(20000)

E0 = frozenset()
NONE = ("c", "none", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
VN = frozenset([NONE])
VB = frozenset([TRUE, FALSE])


def T(t):
    return frozenset([("t", t)])


INT, STR, FLOAT, ANY = T("int"), T("str"), T("float"), T("any")
NUM = frozenset([("t", "int"), ("t", "float")])


def U(label):
    return frozenset([("u", label)])


MUTATORS = {
    "append", "appendleft", "extend", "extendleft", "insert", "add", "update",
    "setdefault", "pop", "popleft", "popitem", "remove", "discard", "clear",
    "sort", "reverse", "rotate", "__setitem__", "__delitem__", "push",
    "__setattr__", "__delattr__", "write"}
BUILTIN_EXC_SUFFIX = ("Error", "Exception", "Warning", "StopIteration", "KeyboardInterrupt")
BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set",
                 "frozenset", "object", "type", "bytes", "complex", "range"}
BUILTINS = BUILTIN_TYPES | {
    "len", "enumerate", "zip", "sorted", "reversed", "sum", "any", "all", "min",
    "max", "map", "filter", "print", "isinstance", "issubclass", "getattr",
    "setattr", "hasattr", "delattr", "super", "next", "iter", "abs", "round",
    "callable", "id", "hash", "repr", "ord", "chr", "divmod", "pow", "property",
    "staticmethod", "classmethod", "globals", "locals", "vars", "open", "format",
    "hex", "bin", "slice", "NotImplemented", "Ellipsis", "dir"}


ORDERING = {"__lt__", "__le__", "__gt__", "__ge__", "__cmp__"}
KEYLABELS = {"key", "elem"}
IMPURE = {"print", "input", "open", "id", "hash", "exec", "eval", "globals", "compile", "__import__", "exit", "quit"}


class Obj:
    __slots__ = ("id", "kind", "cls", "site", "ctx", "phase", "label", "func")

    def __init__(self, id, kind, cls, site, ctx, phase, label=None, func=""):
        self.id, self.kind, self.cls = id, kind, cls
        self.site, self.ctx, self.phase, self.label = site, ctx, phase, label
        self.func = func

    def __repr__(self):
        n = self.cls.name if self.cls else self.kind
        return "<%s @%s:%s>" % (n, self.site[0], self.site[1])


class Frame:
    __slots__ = ("func", "module", "owner", "ctx", "ret", "yields", "raises",
                 "fid", "first", "loops", "trys", "haslocals", "globals_", "nonlocals",
                 "W_ret", "parent", "P_ret")

    def __init__(self, func, module, owner, ctx, fid, parent):
        self.func, self.module, self.owner, self.ctx = func, module, owner, ctx
        self.fid, self.parent = fid, parent
        self.ret, self.W_ret, self.P_ret = E0, E0, E0
        self.yields = E0
        self.raises = {}
        self.loops = []
        self.trys = []
        self.first = E0
        self.globals_ = set()
        self.nonlocals = set()
        self.haslocals = False


class State:
    __slots__ = ("env", "W", "P")       # P: jobs that may still be running (sched.py)

    def __init__(self, env, W, P=E0):
        self.env, self.W, self.P = env, W, P

    def copy(self):
        return State(dict(self.env), self.W, self.P)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        o = env.get(k)
        env[k] = v if o is None else (o | v)
    return State(env, a.W | b.W, a.P | b.P)


def same(a, b):
    if a is None or b is None:
        return a is b
    return a.env == b.env and a.W == b.W and a.P == b.P


class Result:
    __slots__ = ("ret", "W", "raises", "normal", "P")

    def __init__(self, ret, W, raises, normal, P=E0):
        self.ret, self.W, self.raises, self.normal, self.P = ret, W, raises, normal, P


BOT = Result(E0, E0, {}, False)


def commutative(body):
    """may the iterations of a loop with this body be exchanged (syntactically)"""
    for b in body:
        if isinstance(b, (ast.Pass, ast.Continue)):
            continue
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
                b.value.func.attr in ("add", "discard"):
            continue
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            continue
        if isinstance(b, ast.AugAssign) and isinstance(b.op, (ast.Add, ast.BitOr, ast.BitAnd)):
            continue
        if isinstance(b, ast.Assign) and all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in b.targets):
            continue
        if isinstance(b, ast.If) and commutative(b.body) and commutative(b.orelse):
            continue
        return False
    return True


class Interp:
    K = 5
    MAXCONST = 14

    def __init__(self, prog, K=None):
        self.prog = prog
        if K:
            self.K = K
        self.objs = []
        self.objkey = {}
        self.heap = {}            # (objid, field) -> value
        self.fields = {}          # objid -> set(field)
        self.funs = {}            # fid-key -> (FuncInfo, parent frame id, owner)
        self.frames = {}          # frame id -> {var: value} (captured variables)
        self.memo = {}
        self.prev = {}
        self.active = {}
        self.fstack = {}
        self.changed = False
        self.phase = "0"
        self.writes = []          # event list
        self.writekey = {}
        self.compares = {}        # (path,line,col,op) -> set of (l,r,phase)
        self.derefs = {}
        self.raise_events = {}
        self.calls = {}           # (site) -> set(FuncInfo)
        self.submits = {}
        self.funcs_seen = set()
        self.unsupported = {}
        self.globvals = {}
        self.globdone = {}
        self.user_calls = {}
        self.steps = 0
        self.implicit = False
        self.phase_funcs = {}     # phase -> set of FuncInfo entered
        self.edges = {}           # phase -> set of (caller, callee) names
        self.reflect_own = ()     # names a reflective lookup of an unknown option is not credited with
        self.ext_args = {}        # (phase, name) -> labels of the caller's values handed over
        self.ext_calls = set()    # (phase, name, path, func, line)
        self.unordered = 0
        self.dead = set()
        self.lit = {}             # oid -> {constant key or element: value} of literals with constant keys
        self.litdirty = set()     # literals that are modified somewhere

    # ------------------------------------------------------------ literals and string constants
    def note_lit(self, oid, pairs):
        """pairs: [(key value, value)] or None when something is not constant"""
        if pairs is None or any(len(k) != 1 or next(iter(k))[0] != "c" for k, _ in pairs):
            if oid not in self.litdirty:
                self.litdirty.add(oid)
                self.changed = True
            return
        d = self.lit.setdefault(oid, {})
        for k, v in pairs:
            kk = next(iter(k))
            n = d.get(kk, E0) | v
            if n != d.get(kk):
                d[kk] = n
                self.changed = True

    def literal(self, a):
        if a[0] == "o" and a[1] not in self.litdirty:
            return self.lit.get(a[1])
        return None

    def lit_lookup(self, d, idx):
        """-> (values of matching keys, may another key be meant)"""
        out, miss = E0, False
        for i in idx:
            if i[0] == "c":
                if i in d:
                    out |= d[i]
                else:
                    miss = True
            else:
                hit = E0
                for k, v in d.items():
                    if True in self.eq1(i, k, False):
                        hit |= v
                out |= hit
                miss = True
        return out, miss

    @staticmethod
    def concat(x, y):
        """concatenation of two string atoms"""
        if x[0] == "c" and y[0] == "c":
            return ("c", "str", x[2] + y[2])
        if x[0] == "nc" and y[0] == "c":
            return ("nc", x[1], x[2] + y[2], x[3])
        if x[0] == "c" and y[0] == "nc":
            return ("nc", x[2] + y[1], y[2], y[3])
        return ("t", "str")

    def strparts(self, parts):
        """concatenation of string values"""
        cur = frozenset([("c", "str", "")])
        for p in parts:
            q = frozenset(x if self.isstr(x) else ("t", "str") for x in p)
            if not q:
                return E0
            cur = self.cap(frozenset(self.concat(x, y) for x in cur for y in q))
            if len(cur) > 12:
                return STR
        return cur

    @staticmethod
    def isstr(x):
        return x[0] == "nc" or (x[0] == "c" and x[1] == "str") or x == ("t", "str")

    def mod_names(self, mod, n):
        """names of a module a complement string may denote"""
        out = []
        for k in sorted(self.prog.names(mod)):
            if k.startswith(n[1]) and k.endswith(n[2]) and len(k) >= len(n[1]) + len(n[2]):
                mid = k[len(n[1]):len(k) - len(n[2])] if n[2] else k[len(n[1]):]
                if mid not in n[3] and not any(m in k for m in self.reflect_own):
                    out.append(k)
        return out

    # ------------------------------------------------------------ heap
    def alloc(self, kind, cls, node, fr, extra=None, label=None):
        site = (fr.module.path, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), extra)
        key = (kind, cls, site, fr.ctx, self.phase)
        i = self.objkey.get(key)
        if i is None:
            i = len(self.objs)
            self.objs.append(Obj(i, kind, cls, site, fr.ctx, self.phase, label,
                                 fr.func.qual if fr.func else ""))
            self.objkey[key] = i
            self.changed = True
        return ("o", i)

    def put(self, oid, field, val):
        k = (oid, field)
        o = self.heap.get(k, E0)
        n = o | val
        if n != o:
            n = self.cap(n)
            if n != o:
                self.heap[k] = n
                self.fields.setdefault(oid, set()).add(field)
                self.changed = True
        elif k not in self.heap:
            self.heap[k] = n
            self.fields.setdefault(oid, set()).add(field)

    def get(self, oid, field):
        return self.heap.get((oid, field), E0)

    def cap(self, v):
        if len(v) <= 4:
            return v
        strs = [a for a in v if a[0] == "c" and a[1] == "str"]
        ints = [a for a in v if a[0] == "c" and a[1] == "int"]
        if len(strs) > self.MAXCONST:
            v = (v - frozenset(strs)) | STR
        if len(ints) > 4:
            v = (v - frozenset(ints)) | INT
        tups = [a for a in v if a[0] == "tup"]
        if len(tups) > 6:
            n = {len(a[1]) for a in tups}
            v = v - frozenset(tups)
            for ln in n:
                parts = [E0] * ln
                for a in tups:
                    if len(a[1]) == ln:
                        parts = [p | q for p, q in zip(parts, a[1])]
                v |= frozenset([("tup", tuple(parts))])
        return v

    def write(self, st, atom, field, node, fr, how):
        if atom[0] == "o":
            if atom[1] in self.lit and atom[1] not in self.litdirty:
                self.litdirty.add(atom[1])
                self.changed = True
            key = (self.phase, atom[1], field, fr.module.path, getattr(node, "lineno", 0), fr.ctx)
        elif atom[0] in ("u", "cls", "mod"):
            key = (self.phase, atom, field, fr.module.path, getattr(node, "lineno", 0), fr.ctx)
        else:
            return
        i = self.writekey.get(key)
        if i is None:
            i = len(self.writes)
            self.writekey[key] = i
            self.writes.append(dict(phase=self.phase, atom=atom, field=field,
                                    path=fr.module.path, line=getattr(node, "lineno", 0),
                                    func=fr.func.qual if fr.func else "<module>",
                                    owner=fr.func, ctx=fr.ctx, how=how))
        if i not in st.W:
            st.W = st.W | {i}

    # ------------------------------------------------------------ running
    def run(self, driver, limit=60):
        """driver(interp) is called repeatedly until the heap is stable."""
        for it in range(limit):
            self.changed = False
            self.dead = set()
            self.prev = self.memo
            self.memo = {}
            self.globdone = {}
            driver(self)
            if not self.changed and it > 0:
                self.iterations = it + 1
                return
        raise AnalysisBroken("points-to fixpoint not reached in %d rounds" % limit)

    def call_function_named(self, mod, name, args=(), kwargs=None):
        b = self.prog.lookup(mod, name)
        if not b or b[0] != "func":
            raise AnalysisBroken("no function %s.%s" % (mod, name))
        fr = self.root_frame(mod)
        st = State({}, E0)
        r = self.invoke(b[1], None, None, list(args), dict(kwargs or {}), st, fr, b[1].node)
        self.last_raises = fr.raises
        return r

    def root_frame(self, mod):
        m = self.prog.modules[mod]
        return Frame(None, m, None, (), ("root", mod), None)

    # ------------------------------------------------------------ globals
    def global_value(self, module, name):
        b = self.prog.lookup(module.name, name)
        if b is None:
            return None
        return self.binding_value(b, name)

    def binding_value(self, b, name):
        k = b[0]
        if k == "func":
            return frozenset([("f", self.fun(b[1], None, None))])
        if k == "class":
            return frozenset([("cls", b[1])])
        if k == "mod":
            return frozenset([("mod", b[1])])
        if k == "ext":
            return frozenset([("ext", "%s.%s" % (b[1], b[2]))])
        if k == "expr":
            key = (b[2].name, name)
            if key not in self.globdone:
                self.globdone[key] = True
                fr = Frame(None, b[2], None, (("g", b[2].path, name),), ("root", b[2].name), None)
                ph, self.phase = self.phase, "global"
                st = State({}, E0)
                v = self.ev(b[1], st, fr)
                self.phase = ph
                o = self.globvals.get(key, E0)
                if v - o:
                    self.globvals[key] = o | v
                    self.changed = True
            return self.globvals.get(key, E0)
        return None

    def fun(self, fi, frameid, owner, defaults=None):
        key = (fi, frameid)
        if key not in self.funs:
            self.funs[key] = (fi, frameid, owner)
        return key

    # ------------------------------------------------------------ calls
    def invoke(self, fi, closure, recv, args, kwargs, st, fr, node, owner=None,
               star=None, dstar=None):
        """Interpret a call of a source function. args: list of values (recv
        included by the caller through recv).  Returns value; updates st."""
        if recv is not None:
            args = [recv] + list(args)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        if star is not None:
            for i in range(len(args), len(names)):
                if names[i] not in kwargs:
                    bound[names[i]] = bound.get(names[i], E0) | star
        kwo = [x.arg for x in a.kwonlyargs]
        kwextra = {}
        for k, v in kwargs.items():
            if k in names or k in kwo:
                bound[k] = v
            else:
                kwextra[k] = v
        if dstar is not None:
            for n in names + kwo:
                if n not in bound:
                    bound[n] = dstar
        missing = []
        nd = len(a.defaults)
        dfl = {}
        for n, d in zip(names[len(names) - nd:], a.defaults):
            dfl[n] = d
        for n, d in zip(kwo, a.kw_defaults):
            if d is not None:
                dfl[n] = d
        for n in names + kwo:
            opt = n in dfl
            if n not in bound or (opt and ((star is not None and names.index(n) >= len(args) and n not in kwargs)
                                           if n in names else False)) or (opt and dstar is not None and bound[n] is dstar):
                if opt:
                    bound[n] = bound.get(n, E0) | self.default_value(fi, n, dfl[n])
                elif n not in bound:
                    missing.append(n)
        if missing or (a.vararg is None and extra and not star) or (a.kwarg is None and kwextra):
            self.dead.add((fr.module.path, getattr(node, "lineno", 0), fi.qual, "call does not match the signature"))
            return E0            # TypeError: unreachable normally
        if any(not v for v in bound.values()):
            self.dead.add((fr.module.path, getattr(node, "lineno", 0), fi.qual, "argument without value: " +
                           ",".join(k for k, v in bound.items() if not v)))
            return E0
        if a.vararg is not None:
            if star is None:
                bound[a.vararg.arg] = frozenset([self.mktup(extra)])
            else:
                site = self.alloc("tuple", None, node, fr, extra="*args")
                for v in extra:
                    self.put(site[1], "[]", v)
                self.put(site[1], "[]", star)
                bound[a.vararg.arg] = frozenset([site])
        if a.kwarg is not None:
            if dstar is None:
                bound[a.kwarg.arg] = frozenset([("kw", tuple(sorted(kwextra.items(), key=lambda x: x[0])))])
            else:
                bound[a.kwarg.arg] = frozenset([("kw", tuple(sorted(kwextra.items(), key=lambda x: x[0])) + (("*", dstar),))])
        site = (fr.module.path, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if fr.func is None and not fr.ctx:
            ctx = ()
        else:
            ctx = (fr.ctx + (site,))[-self.K:]
        if fi.module.path.startswith("<client"):
            ctx = fr.ctx
        elif fr.module.path.startswith("<client"):
            ctx = (site,)
        fs = self.fstack.setdefault(fi, [])
        if fs:
            ctx = fs[0]
        key = (fi, tuple(sorted(bound.items(), key=lambda x: x[0])), closure, ctx, self.phase)
        self.calls.setdefault(site, set()).add(fi)
        self.funcs_seen.add(fi)
        self.phase_funcs.setdefault(self.phase, set()).add(fi)
        self.edges.setdefault(self.phase, set()).add((fr.func.qual if fr.func else "", fi.qual))
        r = self.memo.get(key)
        if r is None:
            if key in self.active:
                self.active[key] = True
                r = self.prev.get(key, BOT)
            else:
                depth = len(self.active)
                if depth > 90:
                    self.unsupported["recursion-depth"] = 1
                    return U("deep")
                self.active[key] = False
                fs.append(ctx)
                try:
                    self.enter(key)
                    r = self.interpret(fi, closure, bound, ctx, owner or fi.cls)
                finally:
                    self.leave(key)
                    rec = self.active.pop(key)
                    fs.pop()
                if rec:
                    p = self.prev.get(key)
                    if p is None or p.ret != r.ret or p.W != r.W or p.normal != r.normal:
                        if p is not None:
                            r = Result(r.ret | p.ret, r.W | p.W, r.raises, r.normal or p.normal, r.P | p.P)
                            if p.ret != r.ret or p.W != r.W or p.normal != r.normal:
                                self.changed = True
                        else:
                            self.changed = True
                self.memo[key] = r
        self.called(key, r, st)
        for rk, w in r.raises.items():
            self.note_raise(rk, w | st.W, fr, site)
        if not r.normal:
            return E0
        st.W = st.W | r.W
        return r.ret

    # hooks of sched.py
    def enter(self, key):
        pass

    def leave(self, key):
        pass

    def called(self, key, r, st):
        pass

    def note_raise(self, rk, W, fr, callsite=None):
        """rk = (path,line,exc,func)"""
        caught = False
        for tr in reversed(fr.trys):
            if self.catches(tr[0], rk[2]):
                tr[1].append(W)
                caught = True
                break
        if not caught:
            fr.raises[rk] = fr.raises.get(rk, E0) | W

    def catches(self, handlers, exc):
        for h in handlers:
            if h is None or h in ("Exception", "BaseException") or exc == h or exc == "?":
                return True
            if h == "LookupError" and exc in ("KeyError", "IndexError"):
                return True
        return False

    def default_value(self, fi, name, expr):
        key = ("dflt", fi, name)
        fr = Frame(None, fi.module, None, (("d", fi.qual, name),), ("root", fi.module.name), None)
        ph, self.phase = self.phase, "global"
        v = self.ev(expr, State({}, E0), fr)
        self.phase = ph
        return v

    def interpret(self, fi, closure, bound, ctx, owner):
        fid = ("fr", fi, ctx, closure)
        f = Frame(fi, fi.module, owner, ctx, fid, closure)
        node = fi.node
        a = node.args
        allp = a.posonlyargs + a.args
        if allp:
            f.first = bound.get(allp[0].arg, E0)
        st = State(dict(bound), E0)
        f.haslocals = True
        for k, v in bound.items():
            self.capture(f, k, v)
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, st, f)
            return Result(v, st.W, f.raises, bool(v), st.P)
        end = self.block(node.body, st, f)
        ret, W, P = f.ret, f.W_ret, f.P_ret
        normal = bool(f.ret)
        if end is not None:
            normal = True
            W = W | end.W
            P = P | end.P
            if not fi.is_gen:
                ret = ret | VN
        if fi.is_gen:
            it = self.alloc("iter", None, node, f, extra="gen")
            self.put(it[1], "[]", f.yields)
            ret = frozenset([it])
            normal = True
        return Result(ret, W, f.raises, normal, P)

    def capture(self, f, name, v):
        vs = self.frames.setdefault(f.fid, {})
        o = vs.get(name, E0)
        if v - o:
            vs[name] = self.cap(o | v)
            if vs[name] != o:
                self.captured_changed(f)

    def captured_changed(self, f):
        if f.func is not None and _has_inner(f.func.node):
            self.changed = True

    # ------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported[type(s).__name__] = self.unsupported.get(type(s).__name__, 0) + 1
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if not v:
            return None
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if not v:
            return None
        for t in s.targets:
            if isinstance(t, ast.Attribute) and ast.dump(t.value) and self.selfassign(t, s.value):
                continue
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                    and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                vals = [self.ev(x, st, fr) for x in s.value.elts]
                for tt, vv in zip(t.elts, vals):
                    st = self.assign(tt, vv, st, fr, s)
                    if st is None:
                        return None
                continue
            st = self.assign(t, v, st, fr, s)
            if st is None:
                return None
        return st

    def selfassign(self, t, v):
        try:
            return ast.unparse(t) == ast.unparse(v)
        except Exception:
            return False

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return st
        v = self.ev(s.value, st, fr)
        if not v:
            return None
        return self.assign(s.target, v, st, fr, s)

    def s_AugAssign(self, s, st, fr):
        load = _as_load(s.target)
        a = self.ev(load, st, fr)
        b = self.ev(s.value, st, fr)
        if not a or not b:
            return None
        if isinstance(s.op, ast.Add):
            for x in a:
                if x[0] == "o" and self.objs[x[1]].kind in ("list", "deque"):
                    self.write(st, x, "[]", s, fr, "+=")
                    self.put(x[1], "[]", self.elements(b, st, fr, s))
                elif x[0] == "u" and isinstance(s.target, ast.Name):
                    pass
        v = self.binop(s.op, a, b, st, fr, s)
        if not v:
            return None
        return self.assign(s.target, v, st, fr, s)

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                key = (fr.module.name, t.id)
                o = self.globvals.get(key, E0)
                if v - o:
                    self.globvals[key] = o | v
                    self.changed = True
                self.write(st, ("mod", fr.module.name), t.id, node, fr, "global assignment")
                return st
            if t.id in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    vs = self.frames.setdefault(p, {})
                    if t.id in vs:
                        o = vs[t.id]
                        if v - o:
                            vs[t.id] = o | v
                            self.changed = True
                        break
                    p = p[3] if p[0] == "fr" else None
                self.write_frame(st, p, t.id, node, fr)
                return st
            st.env[t.id] = self.cap(v)
            self.capture(fr, t.id, v)
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    l = self.alloc("list", None, node, fr, extra="*")
                    self.put(l[1], "[]", self.elements(v, st, fr, node))
                    st = self.assign(e.value, frozenset([l]), st, fr, node)
                    continue
                ev = self.unpack(v, i, n, st, fr, node)
                if not ev:
                    return None
                st = self.assign(e, ev, st, fr, node)
                if st is None:
                    return None
            return st
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            if not base:
                return None
            self.setattr(base, t.attr, v, st, fr, node)
            return st
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            if not base or not idx:
                return None
            ok = self.setitem(base, idx, v, st, fr, node)
            return st if ok else None
        return st

    def write_frame(self, st, fid, name, node, fr):
        key = (self.phase, ("frame", fid, name), fr.module.path, node.lineno)
        i = self.writekey.get(key)
        if i is None:
            i = len(self.writes)
            self.writekey[key] = i
            self.writes.append(dict(phase=self.phase, atom=("frame", fid), field=name,
                                    path=fr.module.path, line=node.lineno, func=fr.func.qual,
                                    owner=fr.func, ctx=fr.ctx, how="nonlocal"))

    def unpack(self, v, i, n, st, fr, node):
        out = E0
        for a in v:
            if a[0] == "tup":
                if len(a[1]) == n:
                    out |= a[1][i]
            elif a[0] == "u":
                out |= frozenset([a])
            elif a[0] == "t":
                if a[1] == "any":
                    out |= ANY
                elif a[1] == "str":
                    out |= STR
            else:
                out |= self.elements(frozenset([a]), st, fr, node)
        return out

    def alts(self, atoms, st):
        """alternatives: effects of one do not precede the other"""
        W0 = st.W
        acc = W0
        for a in atoms:
            st.W = W0
            yield a
            acc = acc | st.W
        st.W = acc

    def setattr(self, base, name, v, st, fr, node):
        for a in self.alts(base, st):
            if a[0] == "o":
                o = self.objs[a[1]]
                if o.cls is not None:
                    p = self.prog.find_setter(o.cls, name) if name is not None else None
                    if p is not None:
                        self.invoke(p, None, frozenset([a]), [v], {}, st, fr, node)
                        continue
                f = name if name is not None else "*"
                self.write(st, a, f, node, fr, "attribute store")
                self.put(a[1], f, v)
            elif a[0] in ("u", "cls", "mod"):
                self.write(st, a, name or "*", node, fr, "attribute store")
                if a[0] == "cls":
                    key = ("clsattr", a[1], name)
                    o = self.globvals.get(key, E0)
                    if v - o:
                        self.globvals[key] = o | v
                        self.changed = True
            elif a == NONE:
                self.deref(node, fr, "store ." + str(name))

    def setitem(self, base, idx, v, st, fr, node):
        ok = False
        for a in self.alts(base, st):
            if a[0] == "o":
                o = self.objs[a[1]]
                if o.cls is not None:
                    m = self.prog.find_method(o.cls, "__setitem__")
                    if m is not None:
                        r = self.invoke(m, None, frozenset([a]), [idx, v], {}, st, fr, node)
                        ok = ok or bool(r)
                        continue
                    self.write(st, a, "[]", node, fr, "item store")
                    self.put(a[1], "[]", v)
                    ok = True
                else:
                    self.write(st, a, "[]", node, fr, "item store")
                    self.put(a[1], "[]", v)
                    if o.kind == "dict":
                        self.put(a[1], "keys", idx)
                    ok = True
            elif a[0] == "u":
                self.write(st, a, "[]", node, fr, "item store")
                ok = True
            elif a == NONE:
                self.deref(node, fr, "item store")
            elif a[0] in ("cls", "mod", "ext", "t", "kw"):
                ok = True
        return ok

    def deref(self, node, fr, what):
        k = (fr.module.path, fr.func.qual if fr.func else "", getattr(node, "lineno", 0), what)
        self.derefs.setdefault(k, set()).add(self.phase)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                self.ev(t.slice, st, fr)
                for a in base:
                    if a[0] in ("o", "u"):
                        self.write(st, a, "[]", s, fr, "del item")
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fr)
                for a in base:
                    if a[0] in ("o", "u", "cls"):
                        self.write(st, a, t.attr, s, fr, "del attribute")
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else VN
        if v:
            fr.ret = self.cap(fr.ret | v)
            fr.W_ret = fr.W_ret | st.W
            fr.P_ret = fr.P_ret | st.P
        return None

    def s_Raise(self, s, st, fr):
        exc = "?"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                exc = e.id
            if not isinstance(s.exc, ast.Name):
                # evaluate the message (it may call str(self), ...)
                try:
                    self.ev(s.exc, st, fr)
                except AnalysisBroken:
                    raise
        rk = (fr.module.path, s.lineno, exc, fr.func.qual if fr.func else "<module>")
        self.raise_events.setdefault(rk, set()).add(self.phase)
        self.note_raise(rk, st.W, fr)
        return None

    def s_Assert(self, s, st, fr):
        t, f = self.branch(s.test, st, fr)
        return t

    def s_Global(self, s, st, fr):
        fr.globals_.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = frozenset([("mod", a.name)])
            else:
                top = a.name.split(".")[0]
                st.env[top] = frozenset([("mod", top)])
        return st

    def s_ImportFrom(self, s, st, fr):
        base = self.prog.resolve_from(fr.module, s)
        for a in s.names:
            b = self.prog.lookup(base, a.name) if base in self.prog.modules else ("ext", base, a.name)
            if b is None:
                b = ("ext", base, a.name)
            v = self.binding_value(b, a.name)
            if v is not None:
                st.env[a.asname or a.name] = v
        return st

    def s_FunctionDef(self, s, st, fr):
        fi = self.inner(s, fr)
        v = frozenset([("f", self.fun(fi, fr.fid, fr.owner))])
        st.env[s.name] = v
        self.capture(fr, s.name, v)
        return st

    def inner(self, node, fr):
        if not hasattr(node, "_fi"):
            q = (fr.func.qual + "." if fr.func else "") + getattr(node, "name", "<lambda>")
            node._fi = FuncInfo(node, fr.module, q, None)
        return node._fi

    def s_ClassDef(self, s, st, fr):
        ci = getattr(s, "_ci", None)
        if ci is None:
            ci = ClassInfo(s, fr.module)
            self.prog._collect_class(ci)
            s._ci = ci
        st.env[s.name] = frozenset([("cls", ci)])
        return st

    def s_If(self, s, st, fr):
        t, f = self.branch(s.test, st, fr)
        a = self.block(s.body, t, fr) if t is not None else None
        b = self.block(s.orelse, f, fr) if f is not None else None
        return join(a, b)

    def loop(self, fr, head, step):
        """head: state at loop head. step(state)-> (continue state, exit state)."""
        exits = None
        fr.loops.append([None, None])
        for _ in range(60):
            fr.loops[-1] = [None, None]
            nxt, ex = step(head.copy())
            brk, cont = fr.loops[-1]
            nxt = join(nxt, cont)
            new = join(head.copy(), nxt)
            for k in list(new.env):
                new.env[k] = self.cap(new.env[k])
            exits = (ex, brk)
            if same(new, head):
                break
            head = new
        fr.loops.pop()
        return exits

    def s_While(self, s, st, fr):
        def step(h):
            t, f = self.branch(s.test, h, fr)
            n = self.block(s.body, t, fr) if t is not None else None
            return n, f
        ex, brk = self.loop(fr, st, step)
        if s.orelse and ex is not None:
            ex = self.block(s.orelse, ex, fr)
        return join(ex, brk)

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        if not it:
            return None
        el = self.elements(it, st, fr, s)

        def step(h):
            if not el:
                return None, h
            b = self.assign(s.target, el, h.copy(), fr, s)
            n = self.block(s.body, b, fr) if b is not None else None
            return n, h
        ex, brk = self.loop(fr, st, step)
        if s.orelse and ex is not None:
            ex = self.block(s.orelse, ex, fr)
        return join(ex, brk)

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0] = join(fr.loops[-1][0], st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1] = join(fr.loops[-1][1], st)
        return None

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if not v:
                return None
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, v, st, fr, s)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            elif isinstance(h.type, ast.Tuple):
                names += [ast.unparse(x) for x in h.type.elts]
            else:
                names.append(ast.unparse(h.type))
        rec = [names, []]
        entry = st.copy()
        fr.trys.append(rec)
        cur = st
        mids = [entry]
        for b in s.body:
            if cur is None:
                break
            cur = self.stmt(b, cur, fr)
            if cur is not None:
                mids.append(cur.copy())
        fr.trys.pop()
        mid = None
        for m_ in mids:
            mid = join(mid, m_)
        for w in rec[1]:
            mid.W = mid.W | w
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        out = cur
        for h in s.handlers:
            hs = mid.copy()
            if h.name:
                hs.env[h.name] = U("exc")
            out = join(out, self.block(h.body, hs, fr))
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, mid.copy(), fr)
                return None
            out = self.block(s.finalbody, out, fr)
        return out

    # ------------------------------------------------------------ branching
    def truth(self, v, st, fr, node):
        """-> set of possible truth values"""
        out = set()
        for a in v:
            if a[0] == "c":
                out.add(bool(a[2]))
            elif a[0] == "tup":
                out.add(len(a[1]) > 0)
            elif a[0] in ("f", "bm", "bim", "cls", "mod", "bi", "ext", "enum", "fut"):
                out.add(True)
            elif a[0] == "o":
                o = self.objs[a[1]]
                if o.cls is not None and self.prog.find_method(o.cls, "__len__") is None \
                        and self.prog.find_method(o.cls, "__bool__") is None:
                    out.add(True)
                else:
                    out |= {True, False}
            else:
                out |= {True, False}
            if len(out) == 2:
                break
        return out

    def branch(self, test, st, fr):
        """-> (state if true, state if false)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, st, fr)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, falses = st, None
                for v in test.values:
                    if cur is None:
                        break
                    t, f = self.branch(v, cur, fr)
                    falses = join(falses, f)
                    cur = t
                return cur, falses
            cur, trues = st, None
            for v in test.values:
                if cur is None:
                    break
                t, f = self.branch(v, cur, fr)
                trues = join(trues, t)
                cur = f
            return trues, cur
        var = self.split_var(test, st)
        if var is not None:
            ts = fs = None
            tv, fv = E0, E0
            W = st.W
            groups = {}
            for a in st.env[var]:
                groups.setdefault(self.akey(a), []).append(a)
            for g in groups.values():
                s2 = st.copy()
                s2.env[var] = frozenset(g)
                r = self.truth(self.ev(test, s2, fr), s2, fr, test)
                if True in r:
                    tv |= frozenset(g)
                    ts = join(ts, s2.copy())
                if False in r:
                    fv |= frozenset(g)
                    fs = join(fs, s2)
            return ts, fs
        v = self.ev(test, st, fr)
        r = self.truth(v, st, fr, test)
        t = st.copy() if True in r else None
        f = st if False in r else None
        return t, f

    def akey(self, a):
        if a[0] == "c":
            return a
        if a[0] == "o":
            o = self.objs[a[1]]
            return ("o", o.cls or o.kind)
        if a[0] in ("t", "u", "nc"):
            return a
        return a[0]

    def split_var(self, test, st):
        name = None
        if isinstance(test, ast.Name):
            name = test.id
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            for side in (test.left, test.comparators[0]):
                if isinstance(side, ast.Name):
                    name = side.id
                    other = test.comparators[0] if side is test.left else test.left
                    if isinstance(other, ast.Constant):
                        break
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id in ("isinstance", "_check_type") and test.args and \
                isinstance(test.args[0], ast.Name):
            name = test.args[0].id
        if name is not None and name in st.env and len(st.env[name]) > 1:
            return name
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported[type(e).__name__] = self.unsupported.get(type(e).__name__, 0) + 1
            return ANY
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return VN
        if isinstance(v, bool):
            return frozenset([TRUE if v else FALSE])
        if isinstance(v, str):
            return frozenset([("c", "str", v)])
        if isinstance(v, int):
            return frozenset([("c", "int", v)])
        if isinstance(v, float):
            return FLOAT
        return ANY

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st, fr)
                self.to_str(x, st, fr, e, ("__repr__",) if v.conversion == 114 else ("__str__", "__repr__"))
                parts.append(x if v.format_spec is None and v.conversion == -1 else STR)
            else:
                parts.append(self.ev(v, st, fr))
        return self.strparts(parts)

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.env and n not in fr.globals_:
            return st.env[n]
        if n == "__class__" and fr.owner is not None:
            return frozenset([("cls", fr.owner)])
        p = fr.parent
        while p is not None and p[0] == "fr":
            vs = self.frames.get(p, {})
            if n in vs:
                return vs[n]
            p = p[3]
        v = self.global_value(fr.module, n)
        if v is not None:
            return v
        if (fr.module.name, n) in self.globvals:
            return self.globvals[(fr.module.name, n)]
        if n in BUILTINS or n.endswith(BUILTIN_EXC_SUFFIX):
            return frozenset([("bi", n)])
        if n.startswith("__"):
            return STR
        if fr.module.path.startswith("<client"):
            return frozenset([("bi", n)])
        return E0

    def mktup(self, vals):
        vals = list(vals)
        if any(self.depth(v) > 3 for v in vals):
            vals = [frozenset(a if a[0] != "tup" else ("t", "any") for a in v) for v in vals]
        return ("tup", tuple(vals))

    def depth(self, v):
        d = 0
        for a in v:
            if a[0] == "tup":
                for x in a[1]:
                    d = max(d, 1 + self.depth(x))
        return d

    def e_Tuple(self, e, st, fr):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if v and all(a[0] == "tup" for a in v) and len({len(a[1]) for a in v}) == 1:
                    parts = None
                    for a in v:
                        parts = a[1] if parts is None else tuple(p | q for p, q in zip(parts, a[1]))
                    vals.extend(parts)
                    continue
                l = self.alloc("tuple", None, e, fr)
                for y in e.elts:
                    yy = y.value if isinstance(y, ast.Starred) else y
                    v = self.ev(yy, st, fr)
                    if isinstance(y, ast.Starred):
                        v = self.elements(v, st, fr, e)
                    self.put(l[1], "[]", v)
                return frozenset([l])
            v = self.ev(x, st, fr)
            if not v:
                return E0
            vals.append(v)
        return frozenset([self.mktup(vals)])

    def e_List(self, e, st, fr):
        l = self.alloc("list", None, e, fr)
        pairs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.elements(self.ev(x.value, st, fr), st, fr, e)
                pairs = None
            else:
                v = self.ev(x, st, fr)
                if not v:
                    return E0
                if pairs is not None:
                    pairs.append((v, v))
            self.put(l[1], "[]", v)
        self.note_lit(l[1], pairs or None)
        return frozenset([l])

    def e_Set(self, e, st, fr):
        l = self.alloc("set", None, e, fr)
        pairs = []
        for x in e.elts:
            v = self.ev(x, st, fr)
            pairs.append((v, v))
            self.put(l[1], "[]", v)
        self.note_lit(l[1], pairs)
        return frozenset([l])

    def e_Dict(self, e, st, fr):
        l = self.alloc("dict", None, e, fr)
        pairs = []
        for k, x in zip(e.keys, e.values):
            if k is not None:
                kv = self.ev(k, st, fr)
                self.put(l[1], "keys", kv)
                v = self.ev(x, st, fr)
                if not v:
                    return E0
                self.put(l[1], "[]", v)
                if pairs is not None:
                    pairs.append((kv, v))
            else:
                self.put(l[1], "[]", self.elements(self.ev(x, st, fr), st, fr, e, True))
                pairs = None
        self.note_lit(l[1], pairs or None)
        return frozenset([l])

    def comp(self, e, st, fr, emit):
        s2 = st.copy()

        def rec(i, s):
            if i == len(e.generators):
                emit(s)
                st.W = st.W | s.W
                st.P = s.P
                return
            g = e.generators[i]
            el = self.elements(self.ev(g.iter, s, fr), s, fr, e)
            if not el:
                return
            s = self.assign(g.target, el, s.copy(), fr, e)
            if s is None:
                return
            for c in g.ifs:
                s, _ = self.branch(c, s, fr)
                if s is None:
                    return
            rec(i + 1, s)
        rec(0, s2)
        st.W = st.W | s2.W

    def e_ListComp(self, e, st, fr):
        l = self.alloc("list", None, e, fr)
        self.comp(e, st, fr, lambda s: self.put(l[1], "[]", self.ev(e.elt, s, fr)))
        return frozenset([l])

    def e_SetComp(self, e, st, fr):
        l = self.alloc("set", None, e, fr)
        self.comp(e, st, fr, lambda s: self.put(l[1], "[]", self.ev(e.elt, s, fr)))
        return frozenset([l])

    def e_GeneratorExp(self, e, st, fr):
        l = self.alloc("iter", None, e, fr)
        self.comp(e, st, fr, lambda s: self.put(l[1], "[]", self.ev(e.elt, s, fr)))
        return frozenset([l])

    def e_DictComp(self, e, st, fr):
        l = self.alloc("dict", None, e, fr)

        def emit(s):
            self.put(l[1], "keys", self.ev(e.key, s, fr))
            self.put(l[1], "[]", self.ev(e.value, s, fr))
        self.comp(e, st, fr, emit)
        return frozenset([l])

    def e_Lambda(self, e, st, fr):
        fi = self.inner(e, fr)
        for k, v in st.env.items():
            self.capture(fr, k, v)
        return frozenset([("f", self.fun(fi, fr.fid, fr.owner))])

    def e_IfExp(self, e, st, fr):
        t, f = self.branch(e.test, st.copy(), fr)
        out = E0
        for s, x in ((t, e.body), (f, e.orelse)):
            if s is not None:
                out |= self.ev(x, s, fr)
                st.W = st.W | s.W
        return out

    def e_BoolOp(self, e, st, fr):
        out = E0
        cur = st.copy()
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            if cur is None:
                break
            last = i == len(e.values) - 1
            v = self.ev(x, cur.copy(), fr)
            if last:
                out |= v
                st.W = st.W | cur.W
                break
            for a in v:
                r = self.truth(frozenset([a]), cur, fr, x)
                if (False in r and isand) or (True in r and not isand):
                    if a[0] == "t" and a[1] == "bool":
                        out |= frozenset([FALSE if isand else TRUE])
                    else:
                        out |= frozenset([a])
            t, f = self.branch(x, cur, fr)
            cur = t if isand else f
            if cur is not None:
                st.W = st.W | cur.W
        return out

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if not v:
            return E0
        if isinstance(e.op, ast.Not):
            r = self.truth(v, st, fr, e)
            return frozenset(FALSE if x else TRUE for x in r)
        out = E0
        for a in v:
            if a[0] == "c" and a[1] == "int" and isinstance(e.op, ast.USub):
                out |= frozenset([("c", "int", -a[2])])
            elif a[0] == "u":
                out |= frozenset([a])
            elif a[0] == "t":
                out |= frozenset([a])
            else:
                out |= INT
        return out

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        if not a or not b:
            return E0
        return self.binop(e.op, a, b, st, fr, e)

    def binop(self, op, a, b, st, fr, node):
        out = E0
        if isinstance(op, ast.Mod) and any(self.isstr(x) for x in a):
            how = ("__repr__",) if any(x[0] == "c" and "%r" in x[2] and "%s" not in x[2] for x in a) else ("__str__", "__repr__")
            for x in b:
                for y in (x[1] if x[0] == "tup" else [frozenset([x])]):
                    self.to_str(y, st, fr, node, how)
            if len(a) == 1 and len(b) == 1:
                fmt, arg = next(iter(a)), next(iter(b))
                ops = list(arg[1]) if arg[0] == "tup" else [b]
                if fmt[0] == "c" and fmt[2].count("%") == len(ops) == fmt[2].count("%s") and \
                        all(all(self.isstr(x) for x in o) for o in ops):
                    lits = fmt[2].split("%s")
                    parts = [frozenset([("c", "str", lits[0])])]
                    for o, l in zip(ops, lits[1:]):
                        parts += [o, frozenset([("c", "str", l)])]
                    return self.strparts(parts)
            return STR
        isadd = isinstance(op, ast.Add)
        lists = None
        for x in a:
            for y in b:
                if isadd and self.isstr(x) and self.isstr(y):
                    out |= frozenset([self.concat(x, y)])
                elif x[0] == y[0] == "u" and isinstance(op, ast.Sub) and x[1] in KEYLABELS and y[1] in KEYLABELS:
                    out |= U("-" + x[1])
                elif x[0] == "u" or y[0] == "u":
                    out |= frozenset([x if x[0] == "u" else y])
                elif self.isstr(x) or self.isstr(y):
                    out |= STR
                elif x[0] == "tup" and y[0] == "tup" and isadd:
                    out |= frozenset([self.mktup(x[1] + y[1])])
                elif x[0] in ("o", "tup") or y[0] in ("o", "tup"):
                    xo = x[0] == "o" and self.objs[x[1]].cls is not None
                    if xo:
                        nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(op))
                        m = self.prog.find_method(self.objs[x[1]].cls, nm) if nm else None
                        if m:
                            out |= self.invoke(m, None, frozenset([x]), [frozenset([y])], {}, st, fr, node)
                        continue
                    if lists is None:
                        k = "list"
                        if x[0] == "o":
                            k = self.objs[x[1]].kind
                        elif x[0] == "tup":
                            k = "tuple"
                        lists = self.alloc(k, None, node, fr, extra="binop")
                    if x[0] in ("o", "tup"):
                        self.put(lists[1], "[]", self.elements(frozenset([x]), st, fr, node))
                    if y[0] in ("o", "tup"):
                        self.put(lists[1], "[]", self.elements(frozenset([y]), st, fr, node))
                    out |= frozenset([lists])
                elif x == NONE or y == NONE:
                    self.deref(node, fr, "arithmetic")
                elif x == ("t", "float") or y == ("t", "float") or isinstance(op, ast.Div):
                    out |= FLOAT
                else:
                    out |= INT
        return out

    CMP = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">="}

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        if not left:
            return E0
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            if not right:
                return E0
            if type(op) in self.CMP:
                k = (fr.module.path, fr.func.qual if fr.func else "", e.lineno, e.col_offset, self.CMP[type(op)])
                self.compares.setdefault(k, set()).add((self.parts(left, st, fr, e), self.parts(right, st, fr, e), self.phase))
                r = self.ordcmp(op, left, right)
                for a in left | right:
                    if a == NONE and len(left | right) > 1:
                        pass
            elif isinstance(op, (ast.Is, ast.IsNot)):
                r = self.eqcmp(left, right, True)
                if isinstance(op, ast.IsNot):
                    r = {not x for x in r}
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                k = (fr.module.path, fr.func.qual if fr.func else "", e.lineno, e.col_offset, "==")
                self.compares.setdefault(k, set()).add((self.parts(left, st, fr, e), self.parts(right, st, fr, e), self.phase))
                for a in left:
                    if a[0] == "o" and self.objs[a[1]].cls is not None:
                        m = self.prog.find_method(self.objs[a[1]].cls, "__eq__")
                        if m:
                            self.invoke(m, None, frozenset([a]), [right], {}, st, fr, e)
                r = self.eqcmp(left, right, False)
                if isinstance(op, ast.NotEq):
                    r = {not x for x in r}
            else:
                r = self.incmp(left, right, st, fr, e)
                if isinstance(op, ast.NotIn):
                    r = {not x for x in r}
            if res is None:
                res = r
            else:
                res = {a and b for a in res for b in r}
            left = right
        return frozenset(TRUE if x else FALSE for x in res)

    def ordcmp(self, op, l, r):
        out = set()
        for a in l:
            for b in r:
                if a[0] == "c" and b[0] == "c" and a[1] == b[1] == "int":
                    x, y = a[2], b[2]
                    out.add({ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[type(op)])
                else:
                    return {True, False}
        return out or {True, False}

    def eqcmp(self, l, r, ident):
        out = set()
        for a in l:
            for b in r:
                out |= self.eq1(a, b, ident)
                if len(out) == 2:
                    return out
        return out

    def eq1(self, a, b, ident):
        if a[0] == "c" and b[0] == "c":
            return {a == b}
        if a[0] == "nc" or b[0] == "nc":
            if b[0] == "nc":
                a, b = b, a
            if b[0] == "c":
                if b[1] != "str":
                    return {False}
                w, pre, suf = b[2], a[1], a[2]
                if w.startswith(pre) and w.endswith(suf) and len(w) >= len(pre) + len(suf) and \
                        w[len(pre):len(w) - len(suf)] not in a[3]:
                    return {True, False}
                return {False}
            a = ("t", "str")
            if b[0] == "nc":
                b = a
        if a[0] == "enum" and b[0] == "enum":
            return {a == b}
        if a[0] == "cls" and b[0] == "cls":
            return {a == b}
        if a[0] == "bi" and b[0] == "bi":
            return {a == b}
        kinds = {a[0], b[0]}
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            if x[0] in ("u",) or x == ("t", "any"):
                return {False} if x[0] == "u" else {True, False}
            return {False}
        if kinds <= {"c", "t"}:
            ta, tb = a[1], b[1]
            if ta == tb or "any" in (ta, tb):
                return {True, False}
            if {ta, tb} <= {"int", "float", "bool"}:
                return {True, False}
            return {False}
        if "u" in kinds or ("t" in kinds and "any" in (a[1], b[1])):
            return {True, False}
        if a[0] == "o" and b[0] == "o":
            oa, ob = self.objs[a[1]], self.objs[b[1]]
            if ident or (oa.cls is not None or ob.cls is not None):
                if (oa.cls or oa.kind) != (ob.cls or ob.kind):
                    return {False}
            return {True, False}
        if a[0] != b[0]:
            if kinds <= {"o", "tup"}:
                return {True, False}
            return {False}
        return {True, False}

    def incmp(self, l, r, st, fr, node):
        out = set()
        for c in r:
            if c[0] == "tup":
                for a in l:
                    res = set()
                    any_true, maybe = False, False
                    for v in c[1]:
                        q = self.eqcmp(frozenset([a]), v, False)
                        if q == {True}:
                            any_true = True
                        elif True in q:
                            maybe = True
                    if any_true:
                        out.add(True)
                    elif maybe:
                        out |= {True, False}
                    else:
                        out.add(False)
            elif c[0] == "kw":
                keys = {k for k, _ in c[1]}
                for a in l:
                    if a[0] == "c" and "*" not in keys:
                        out.add(a[2] in keys)
                    else:
                        out |= {True, False}
            elif c[0] == "o" and self.objs[c[1]].cls is not None:
                m = self.prog.find_method(self.objs[c[1]].cls, "__contains__")
                if m:
                    self.invoke(m, None, frozenset([c]), [l], {}, st, fr, node)
                out |= {True, False}
            elif self.literal(c) is not None:
                for a in l:
                    res = set()
                    for kk in self.literal(c):
                        res |= self.eq1(a, kk, False)
                        if self.eq1(a, kk, False) == {True}:
                            res = {True}
                            break
                    out |= res
            else:
                out |= {True, False}
        return out

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st, fr)
        return frozenset([("t", "slice")])

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else VN
        n = fr.yields | v
        fr.yields = n
        return ANY

    def e_YieldFrom(self, e, st, fr):
        v = self.elements(self.ev(e.value, st, fr), st, fr, e)
        fr.yields = fr.yields | v
        return ANY

    def e_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        idx = self.ev(e.slice, st, fr)
        if not base or not idx:
            return E0
        return self.getitem(base, idx, st, fr, e, isinstance(e.slice, ast.Slice))

    def const_slice(self, node):
        s = getattr(node, "slice", None)
        if not isinstance(s, ast.Slice):
            return None
        out = []
        for x in (s.lower, s.upper, s.step):
            if x is None:
                out.append(None)
            else:
                try:
                    v = ast.literal_eval(x)
                except (ValueError, SyntaxError):
                    return None
                if not isinstance(v, int):
                    return None
                out.append(v)
        return slice(*out)

    def getitem(self, base, idx, st, fr, node, sl=False):
        out = E0
        for a in self.alts(base, st):
            if a[0] == "tup":
                if sl:
                    bounds = self.const_slice(node)
                    if bounds is not None:
                        out |= frozenset([("tup", a[1][bounds])])
                        continue
                    v = E0
                    for x in a[1]:
                        v |= x
                    t = self.alloc("tuple", None, node, fr, extra="slice")
                    self.put(t[1], "[]", v)
                    out |= frozenset([t])
                    continue
                for i in idx:
                    if i[0] == "c" and isinstance(i[2], int):
                        try:
                            out |= a[1][i[2]]
                        except IndexError:
                            pass
                    else:
                        for x in a[1]:
                            out |= x
            elif a[0] == "kw":
                keys = dict(a[1])
                for i in idx:
                    if i[0] == "c":
                        if i[2] in keys:
                            out |= keys[i[2]]
                        elif "*" in keys:
                            out |= keys["*"]
                    else:
                        for x in keys.values():
                            out |= x
            elif a[0] == "o":
                o = self.objs[a[1]]
                if o.cls is not None:
                    m = self.prog.find_method(o.cls, "__getitem__")
                    if m is not None:
                        out |= self.invoke(m, None, frozenset([a]), [idx], {}, st, fr, node)
                    continue
                if NONE in idx and o.kind in ("list", "tuple", "deque"):
                    self.deref(node, fr, "index by None")
                if sl:
                    l = self.alloc(o.kind if o.kind in ("list", "tuple") else "list", None, node, fr, extra="slice")
                    self.put(l[1], "[]", self.get(a[1], "[]"))
                    out |= frozenset([l])
                elif o.kind == "dict" and self.literal(a) is not None:
                    out |= self.lit_lookup(self.literal(a), idx)[0]
                else:
                    out |= self.get(a[1], "[]")
            elif a[0] == "u":
                out |= frozenset([a])
            elif a == NONE:
                self.deref(node, fr, "subscript")
            elif self.isstr(a):
                out |= STR
            elif a[0] == "cls" and self.is_enum(a[1]):
                out |= frozenset(("enum", a[1].name, k) for k in a[1].attrs)
            elif a[0] in ("t", "ext"):
                out |= ANY
        return out

    # ------------------------------------------------------------ attributes
    def is_enum(self, ci):
        return any(isinstance(b, ast.Name) and b.id == "Enum" for b in ci.base_exprs)

    def e_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        if not base:
            return E0
        return self.getattr(base, e.attr, st, fr, e)

    def getattr(self, base, name, st, fr, node):
        out = E0
        for a in self.alts(base, st):
            out |= self.getattr1(a, name, st, fr, node)
        return out

    def getattr1(self, a, name, st, fr, node):
        if a[0] == "nc":
            a = ("t", "str")
        k = a[0]
        if k == "o":
            o = self.objs[a[1]]
            if o.cls is not None:
                ci = o.cls
                if name is None:
                    v = self.get(a[1], "*")
                    return v
                m = self.prog.find_method(ci, name)
                if m is not None and m.is_property:
                    return self.invoke(m, None, frozenset([a]), [], {}, st, fr, node)
                if (a[1], name) in self.heap:
                    return self.heap[(a[1], name)]
                if m is not None:
                    return frozenset([self.bind(m, a, ci)])
                ca = self.prog.find_class_attr(ci, name)
                if ca is not None:
                    v = self.class_attr(ca[0], name, ca[1])
                    return frozenset(("bm", a, x[1][0]) if x[0] == "f" else x for x in v)
                if name == "__class__":
                    return frozenset([("cls", ci)])
                if name == "__dict__":
                    return frozenset([("dictof", a)])
                if name in ("__setattr__", "__getattribute__", "__delattr__", "__len__", "__str__", "__repr__", "__init__", "__hash__", "__eq__"):
                    return frozenset([("bim", a, name)])
                if (a[1], "*") in self.heap:
                    return self.heap[(a[1], "*")]
                self.dead.add((fr.module.path, getattr(node, "lineno", 0), "%s.%s" % (ci.name, name), "attribute never assigned"))
                return E0
            return frozenset([("bim", a, name)]) if name else E0
        if k == "cls":
            ci = a[1]
            if self.is_enum(ci) and name in ci.attrs:
                return frozenset([("enum", ci.name, name)])
            m = self.prog.find_method(ci, name)
            if m is not None:
                if m.is_classmethod:
                    return frozenset([("bm", a, m)])
                return frozenset([("f", self.fun(m, None, m.cls))])
            key = ("clsattr", ci, name)
            ca = self.prog.find_class_attr(ci, name)
            v = self.globvals.get(key, E0)
            if ca is not None:
                v |= self.class_attr(ca[0], name, ca[1])
            if v:
                return v
            if name == "__new__":
                return frozenset([("bi", "object.__new__")])
            if name in ("__name__", "__doc__", "__module__"):
                return STR
            if name.startswith("__"):
                return frozenset([("bi", "object." + name)])
            return E0
        if k == "super":
            ci = None
            recv = a[2]
            if recv[0] == "o":
                ci = self.objs[recv[1]].cls
            elif recv[0] == "cls":
                ci = recv[1]
            if ci is None:
                return U("super")
            for c in self.prog.next_in_mro(ci, a[1]):
                if name in c.methods:
                    m = c.methods[name]
                    if m.is_property:
                        return self.invoke(m, None, frozenset([recv]), [], {}, st, fr, node)
                    if name == "__new__" or m.is_static:
                        return frozenset([("f", self.fun(m, None, m.cls))])
                    if m.is_classmethod:
                        return frozenset([("bm", recv if recv[0] == "cls" else ("cls", ci), m)])
                    if recv[0] == "cls":
                        return frozenset([("f", self.fun(m, None, m.cls))])
                    return frozenset([("bm", recv, m)])
            if name == "__new__":
                return frozenset([("bi", "object.__new__")])
            return frozenset([("bim", recv, name)])
        if k == "mod":
            b = self.prog.lookup(a[1], name) if name else None
            if b is None:
                if a[1] in self.prog.modules:
                    if name and name.startswith("__"):
                        return STR
                    return E0
                return frozenset([("ext", "%s.%s" % (a[1], name))])
            v = self.binding_value(b, name)
            return v if v is not None else E0
        if k == "u":
            if name in MUTATORS or name in ORDERING or name in ("get", "keys", "values", "items", "index", "count", "copy"):
                return frozenset([("bim", a, name)])
            return frozenset([a])
        if a == NONE:
            if name in ("__class__", "__str__"):
                return ANY
            self.deref(node, fr, "." + str(name))
            return E0
        if k == "ext":
            return frozenset([("ext", a[1] + "." + str(name))])
        if k == "enum":
            return STR
        if k in ("c", "t", "tup", "kw", "fut", "dictof", "x"):
            if a == ("t", "any"):
                return ANY
            return frozenset([("bim", a, name)])
        if k == "f" and name in ("__name__", "__doc__"):
            return STR
        if k == "bi":
            if a[1] in BUILTIN_TYPES or a[1] == "object":
                return frozenset([("bi", a[1] + "." + str(name))])
            return ANY
        return ANY

    def bind(self, m, a, ci):
        if m.is_static or m.name == "__new__":
            return ("f", self.fun(m, None, m.cls))
        if m.is_classmethod:
            return ("bm", ("cls", ci), m)
        return ("bm", a, m)

    def class_attr(self, ci, name, expr):
        key = ("clsattrv", ci, name)
        if key not in self.globdone:
            self.globdone[key] = True
            fr = Frame(None, ci.module, ci, (("ca", ci.name, name),), ("root", ci.module.name), None)
            ph, self.phase = self.phase, "global"
            v = self.ev(expr, State({}, E0), fr)
            self.phase = ph
            o = self.globvals.get(key, E0)
            if v - o:
                self.globvals[key] = o | v
                self.changed = True
        return self.globvals.get(key, E0) | self.globvals.get(("clsattr", ci, name), E0)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            return self.do_super(e, st, fr)
        f = self.ev(e.func, st, fr)
        if not f:
            return E0
        args, star, kw, dstar = [], None, {}, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                tups = [a for a in v if a[0] == "tup"]
                if len(tups) == len(v) and len({len(a[1]) for a in tups}) == 1 and star is None:
                    n = len(tups[0][1])
                    for i in range(n):
                        p = E0
                        for a in tups:
                            p |= a[1][i]
                        args.append(p)
                else:
                    el = self.elements(v, st, fr, e)
                    star = (star or E0) | el
            else:
                v = self.ev(x, st, fr)
                if not v:
                    return E0
                if star is not None:
                    star = star | v
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if not v:
                return E0
            if k.arg is None:
                for a in v:
                    if a[0] == "kw":
                        for kk, vv in a[1]:
                            if kk == "*":
                                dstar = (dstar or E0) | vv
                            else:
                                kw[kk] = kw.get(kk, E0) | vv
                    else:
                        dstar = (dstar or E0) | self.elements(frozenset([a]), st, fr, e, True) | ANY
            else:
                kw[k.arg] = v
        if star is not None and not star:
            star = None
        out = E0
        for a in self.alts(f, st):
            out |= self.call1(a, args, star, kw, dstar, st, fr, e)
        return self.cap(out)

    def do_super(self, e, st, fr):
        if e.args:
            c = self.ev(e.args[0], st, fr)
            r = self.ev(e.args[1], st, fr)
            out = E0
            for x in c:
                for y in r:
                    if x[0] == "cls":
                        out |= frozenset([("super", x[1], y)])
            return out
        owner = fr.owner
        if owner is None:
            return U("super")
        return frozenset(("super", owner, y) for y in fr.first if y[0] in ("o", "cls"))

    def call1(self, a, args, star, kw, dstar, st, fr, node):
        k = a[0]
        if k == "f":
            fi, parent, owner = self.funs[a[1]]
            return self.invoke(fi, parent, None, args, kw, st, fr, node, owner, star, dstar)
        if k == "bm":
            return self.invoke(a[2], None, frozenset([a[1]]), args, kw, st, fr, node, a[2].cls, star, dstar)
        if k == "cls":
            return self.construct(a[1], args, star, kw, dstar, st, fr, node)
        if k == "bim":
            return self.call_bim(a[1], a[2], args, star, kw, st, fr, node)
        if k == "bi":
            return self.call_builtin(a[1], args, star, kw, dstar, st, fr, node)
        if k == "ext":
            return self.call_ext(a[1], args, star, kw, st, fr, node)
        if k == "u":
            key = (fr.module.path, fr.func.qual if fr.func else "", getattr(node, "lineno", 0), a)
            self.user_calls.setdefault(key, set()).add((tuple(args), self.phase))
            if a[1].startswith("comp"):
                return frozenset([("t", "any")])
            return frozenset([a])
        if k == "o":
            o = self.objs[a[1]]
            if o.cls is not None:
                m = self.prog.find_method(o.cls, "__call__")
                if m:
                    return self.invoke(m, None, frozenset([a]), args, kw, st, fr, node)
            return ANY
        if a == NONE:
            self.deref(node, fr, "call")
            return E0
        if k in ("c", "nc"):
            return E0
        return ANY

    def construct(self, ci, args, star, kw, dstar, st, fr, node):
        if self.is_enum(ci):
            return frozenset(("enum", ci.name, k) for k in ci.attrs)
        new = self.prog.find_method(ci, "__new__")
        if new is not None:
            v = self.invoke(new, None, None, [frozenset([("cls", ci)])] + list(args), kw, st, fr, node, new.cls, star, dstar)
        else:
            v = frozenset([self.alloc("inst", ci, node, fr)])
        out = E0
        for a in v:
            if a[0] == "o" and self.objs[a[1]].cls is not None and ci in self.prog.mro(self.objs[a[1]].cls):
                init = self.prog.find_method(self.objs[a[1]].cls, "__init__")
                if init is not None:
                    r = self.invoke(init, None, frozenset([a]), args, kw, st, fr, node, init.cls, star, dstar)
                    if not r:
                        continue
            out |= frozenset([a])
        return out

    def note_ext(self, name, node, fr):
        if not fr.module.path.startswith("<client"):
            self.ext_calls.add((self.phase, name, fr.module.path, fr.func.qual if fr.func else "<module>",
                                getattr(node, "lineno", 0)))

    def unord_elements(self, *a, **k):
        self.unordered += 1
        try:
            return self.elements(*a, **k)
        finally:
            self.unordered -= 1

    def elements(self, v, st, fr, node, dictvals=False):
        out = E0
        if not self.unordered:
            for a in v:
                if a[0] == "o" and self.objs[a[1]].kind in ("set", "frozenset"):
                    if not isinstance(node, ast.SetComp) and not self.ordered_set(a) and \
                            not (isinstance(node, ast.For) and commutative(node.body)):
                        self.note_ext("iteration over a set", node, fr)
        for a in v:
            k = a[0]
            if k == "tup":
                for x in a[1]:
                    out |= x
            elif k == "o":
                o = self.objs[a[1]]
                if o.cls is not None:
                    m = self.prog.find_method(o.cls, "__iter__")
                    if m is not None:
                        r = self.invoke(m, None, frozenset([a]), [], {}, st, fr, node)
                        out |= self.elements(r, st, fr, node) if r != v else E0
                        continue
                    m = self.prog.find_method(o.cls, "__getitem__")
                    if m is not None:
                        out |= self.invoke(m, None, frozenset([a]), [INT], {}, st, fr, node)
                    continue
                if o.kind == "dict" and not dictvals:
                    out |= self.get(a[1], "keys")
                else:
                    out |= self.get(a[1], "[]")
            elif k == "u":
                out |= frozenset([a])
            elif self.isstr(a):
                out |= STR
            elif k == "t":
                out |= STR if a[1] == "str" else (INT if a[1] == "range" else ANY)
            elif k == "kw":
                for kk, x in a[1]:
                    out |= x if dictvals else STR
            elif k == "cls" and self.is_enum(a[1]):
                out |= frozenset(("enum", a[1].name, x) for x in a[1].attrs)
            elif k == "dictof":
                for f in self.fields.get(a[1][1], ()):
                    out |= STR
            elif a == NONE:
                self.deref(node, fr, "iteration")
            elif k in ("ext", "x"):
                out |= ANY
        return out

    def ordered_set(self, a):
        """integers are iterated in an order fixed by the insertions"""
        return all((x[0] == "c" and x[1] != "str") or x in (("t", "int"), ("t", "bool")) for x in self.get(a[1], "[]"))

    def to_str(self, v, st, fr, node, how=("__str__", "__repr__")):
        for a in v:
            if a[0] == "o":
                o = self.objs[a[1]]
                if o.kind in ("set", "frozenset") and not self.ordered_set(a):
                    self.note_ext("text of a set", node, fr)
                if o.cls is not None:
                    if not any(self.prog.find_method(o.cls, nm) for nm in how) and \
                            not any(isinstance(b, ast.Name) and self.prog.resolve_class_expr(o.cls.module, b) is None and b.id != "object"
                                    for c in self.prog.mro(o.cls) for b in c.base_exprs):
                        self.note_ext("text of an object's address (%s)" % o.cls.name, node, fr)
                    for nm in how:
                        m = self.prog.find_method(o.cls, nm)
                        if m is not None:
                            self.invoke(m, None, frozenset([a]), [], {}, st, fr, node)
                            break
            elif a[0] == "tup":
                for x in a[1]:
                    self.to_str(x, st, fr, node)

    # builtin methods ------------------------------------------------------
    def call_bim(self, recv, name, args, star, kw, st, fr, node):
        k = recv[0]
        allargs = E0
        for x in args:
            allargs |= x
        if star:
            allargs |= star
        if name == "__setattr__" and k in ("o", "u"):
            if args:
                names = [x[2] if x[0] == "c" else None for x in args[0]]
                for n in names:
                    self.setattr(frozenset([recv]), n, args[1] if len(args) > 1 else allargs, st, fr, node)
            return VN
        if name == "__delattr__" and k in ("o", "u"):
            self.write(st, recv, "*", node, fr, "delattr")
            return VN
        if name == "__getattribute__" and k in ("o", "u"):
            out = E0
            for n in args[0]:
                out |= self.getattr1(recv, n[2] if n[0] == "c" else None, st, fr, node)
            return out
        if k == "u":
            if name in ORDERING:
                self.note_order(frozenset([recv]), allargs, name, node, fr, st)
                return VB
            if name in MUTATORS:
                self.write(st, recv, "[]", node, fr, "." + name + "()")
            return frozenset([recv])
        if k == "kw":
            d = dict(recv[1])
            if name in ("get", "pop", "setdefault"):
                out = E0
                dfl = args[1] if len(args) > 1 else VN
                for kk in args[0]:
                    if kk[0] == "c":
                        if kk[2] in d:
                            out |= d[kk[2]]
                        else:
                            if "*" in d:
                                out |= d["*"]
                            out |= dfl
                    else:
                        for x in d.values():
                            out |= x
                        out |= dfl
                return out
            if name in ("items",):
                l = self.alloc("list", None, node, fr, extra="items")
                for kk, x in recv[1]:
                    self.put(l[1], "[]", frozenset([self.mktup([STR, x])]))
                return frozenset([l])
            if name in ("values", "keys"):
                l = self.alloc("list", None, node, fr, extra="vals")
                for kk, x in recv[1]:
                    self.put(l[1], "[]", x if name == "values" else STR)
                return frozenset([l])
            return ANY
        if k == "dictof":
            o = recv[1]
            if name in ("get", "pop"):
                out = args[1] if len(args) > 1 else VN
                for kk in args[0]:
                    if kk[0] == "c" and (o[1], kk[2]) in self.heap:
                        out |= self.heap[(o[1], kk[2])]
                    else:
                        out |= self.get(o[1], "*")
                if name == "pop":
                    self.write(st, o, "*", node, fr, "__dict__.pop")
                return out
            if name in ("update", "clear", "setdefault"):
                self.write(st, o, "*", node, fr, "__dict__." + name)
            return ANY
        if k == "fut":
            if name == "result":
                return recv[1]
            return ANY
        if k == "x":                      # executor
            if name == "submit":
                fns = args[0]
                rest = args[1:]
                out = E0
                for f in fns:
                    key = (fr.module.path, fr.func.qual if fr.func else "", node.lineno, node.col_offset)
                    self.submits.setdefault(key, set()).add((f, self.phase))
                    out |= self.call1(f, list(rest), star, kw, None, st, fr, node)
                return frozenset([("fut", out)])
            if name == "map":
                out = E0
                for f in args[0]:
                    els = [self.elements(x, st, fr, node) for x in args[1:]]
                    if all(els):
                        out |= self.call1(f, els, None, {}, None, st, fr, node)
                it = self.alloc("iter", None, node, fr, extra="exmap")
                self.put(it[1], "[]", out)
                return frozenset([it])
            return VN
        if k in ("c", "t", "nc"):
            if k == "nc":
                k, recv = "t", ("t", "str")
            if name in ("join",):
                for x in args:
                    self.elements(x, st, fr, node)
                return STR
            if name in ("find", "index", "count", "rfind", "bit_length"):
                return INT
            if name in ("startswith", "endswith", "isalpha", "isdigit", "islower", "isupper"):
                return VB
            if name == "split":
                l = self.alloc("list", None, node, fr)
                self.put(l[1], "[]", STR)
                return frozenset([l])
            if name == "format":
                for x in args:
                    self.to_str(x, st, fr, node)
                if k == "c" and not kw and recv[2].count("{") == recv[2].count("{}") == len(args) and \
                        recv[2].count("}") == len(args) and all(all(self.isstr(y) for y in x) for x in args):
                    lits = recv[2].split("{}")
                    parts = [frozenset([("c", "str", lits[0])])]
                    for o, l in zip(args, lits[1:]):
                        parts += [o, frozenset([("c", "str", l)])]
                    return self.strparts(parts)
                return STR
            if k == "t" and recv[1] == "any":
                return ANY
            return STR if recv[1] == "str" else ANY
        if k == "tup":
            if name in ("index", "count"):
                return INT
            return ANY
        if k == "o":
            o = self.objs[recv[1]]
            oid = recv[1]
            if o.cls is not None:
                return ANY if name not in ("__init__",) else VN
            if name in MUTATORS:
                self.write(st, recv, "[]", node, fr, "." + name + "()")
            if name in ("append", "appendleft", "add"):
                self.put(oid, "[]", allargs)
                return VN
            if name in ("extend", "extendleft"):
                self.put(oid, "[]", self.elements(allargs, st, fr, node))
                return VN
            if name == "update":
                if o.kind == "dict":
                    for x in args:
                        for y in x:
                            if y[0] == "o":
                                self.put(oid, "[]", self.get(y[1], "[]"))
                                self.put(oid, "keys", self.get(y[1], "keys"))
                            else:
                                self.put(oid, "[]", self.elements(frozenset([y]), st, fr, node, True))
                    for x in kw.values():
                        self.put(oid, "[]", x)
                        self.put(oid, "keys", STR)
                else:
                    self.put(oid, "[]", self.unord_elements(allargs, st, fr, node))
                return VN
            if name == "insert":
                if len(args) > 1:
                    self.put(oid, "[]", args[1])
                return VN
            if name == "setdefault":
                self.put(oid, "keys", args[0])
                self.put(oid, "[]", args[1] if len(args) > 1 else VN)
                return self.get(oid, "[]")
            if name in ("pop", "popleft", "__getitem__"):
                v = self.get(oid, "[]")
                if o.kind in ("set", "frozenset"):
                    self.note_ext("pop from a set", node, fr)
                if o.kind == "dict" and len(args) > 1:
                    v |= args[1]
                return v
            if name == "popitem":
                return frozenset([self.mktup([self.get(oid, "keys"), self.get(oid, "[]")])])
            if name == "get":
                dflt = args[1] if len(args) > 1 else VN
                if o.kind == "dict" and self.literal(recv) is not None and args:
                    v, miss = self.lit_lookup(self.literal(recv), args[0])
                    return v | dflt if miss else v
                return self.get(oid, "[]") | dflt
            if name == "keys":
                l = self.alloc("view", None, node, fr, extra=("keys", oid))
                self.put(l[1], "[]", self.get(oid, "keys"))
                return frozenset([l])
            if name == "values":
                l = self.alloc("view", None, node, fr, extra=("values", oid))
                self.put(l[1], "[]", self.get(oid, "[]"))
                return frozenset([l])
            if name == "items":
                l = self.alloc("view", None, node, fr, extra=("items", oid))
                a, b = self.get(oid, "keys"), self.get(oid, "[]")
                if a and b:
                    self.put(l[1], "[]", frozenset([self.mktup([a, b])]))
                return frozenset([l])
            if name in ("copy", "union", "intersection", "difference", "__copy__"):
                l = self.alloc(o.kind, None, node, fr, extra="copy")
                self.put(l[1], "[]", self.get(oid, "[]"))
                self.put(l[1], "keys", self.get(oid, "keys"))
                if name in ("union",):
                    self.put(l[1], "[]", self.elements(allargs, st, fr, node))
                return frozenset([l])
            if name in ("index", "count", "__len__"):
                return INT
            if name in ("sort",):
                self.note_sortcall(node, fr, self.parts(self.get(oid, "[]"), st, fr, node), kw)
                self.call_keyfn(kw, self.get(oid, "[]"), st, fr, node)
                return VN
            if name in ("remove", "discard", "clear", "reverse", "rotate", "__setitem__", "__delitem__"):
                if name == "__setitem__" and len(args) > 1:
                    self.put(oid, "[]", args[1])
                    self.put(oid, "keys", args[0])
                return VN
            if name in ("__next__",):
                return self.get(oid, "[]")
            if name in ("issubset", "issuperset", "isdisjoint", "__contains__"):
                return VB
            return ANY
        return ANY

    def call_keyfn(self, kw, el, st, fr, node):
        if "key" in kw and el:
            for f in kw["key"]:
                r = self.call1(f, [el], None, {}, None, st, fr, node)
                if r and f[0] != "u":
                    self.note_sortcall(node, fr, self.parts(r, st, fr, node), {})

    def parts(self, v, st, fr, node, depth=2):
        """what an ordering comparison of v may look at: the items of sequences as well"""
        out = v
        if depth:
            for a in v:
                if a[0] == "tup":
                    for x in a[1]:
                        out |= self.parts(x, st, fr, node, depth - 1)
                elif a[0] == "o" and self.objs[a[1]].cls is None and self.objs[a[1]].kind in ("list", "tuple"):
                    out |= self.parts(self.get(a[1], "[]"), st, fr, node, depth - 1)
        return out

    def note_order(self, l, r, what, node, fr, st):
        k = (fr.module.path, fr.func.qual if fr.func else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), what)
        self.compares.setdefault(k, set()).add((self.parts(l, st, fr, node), self.parts(r, st, fr, node), self.phase))

    def note_sortcall(self, node, fr, el, kw):
        if "key" in kw:
            return
        k = (fr.module.path, fr.func.qual if fr.func else "", node.lineno, node.col_offset, "sort/min/max")
        self.compares.setdefault(k, set()).add((el, el, self.phase))

    def call_builtin(self, name, args, star, kw, dstar, st, fr, node):
        a0 = args[0] if args else E0
        if fr.module.path.startswith("<client"):
            if name == "USER":
                lbl = [x[2] for x in a0 if x[0] == "c"]
                return U(lbl[0] if lbl else "user")
            if name == "INT":
                return INT
            if name == "STRV":
                return STR
            if name == "OTHER":
                return frozenset([("nc", "", "", frozenset(x[2] for v in args for x in v))])
            if name == "BOOLV":
                return VB
            if name == "PHASE":
                for x in a0:
                    self.phase = x[2]
                return VN
        if name in IMPURE:
            self.note_ext(name, node, fr)
        if name == "object.__new__":
            out = E0
            for c in a0:
                if c[0] == "cls":
                    out |= frozenset([self.alloc("inst", c[1], node, fr)])
            return out
        if name.endswith("Error") or name.endswith("Exception") or name.endswith("Warning"):
            for x in args:
                self.to_str(x, st, fr, node)
            return U("exc")
        if name == "isinstance":
            return frozenset(TRUE if x else FALSE for x in self.isinst(a0, args[1] if len(args) > 1 else E0))
        if name == "issubclass":
            return VB
        if name == "len":
            out = E0
            for a in a0:
                if a[0] == "tup":
                    out |= frozenset([("c", "int", len(a[1]))])
                elif a[0] == "kw" and all(k != "*" for k, _ in a[1]):
                    out |= frozenset([("c", "int", len(a[1]))])
                elif a[0] == "o" and self.objs[a[1]].cls is not None:
                    m = self.prog.find_method(self.objs[a[1]].cls, "__len__")
                    if m is not None:
                        out |= self.invoke(m, None, frozenset([a]), [], {}, st, fr, node)
                elif a == NONE:
                    self.deref(node, fr, "len()")
                elif a[0] == "u" and a[1].lstrip("~") in KEYLABELS:
                    out |= U("~" + a[1].lstrip("~"))
                elif a[0] == "o" and self.objs[a[1]].kind == "list" and not self.get(a[1], "[]"):
                    out |= frozenset([("c", "int", 0)])
                else:
                    out |= INT
            return out
        if name in ("str", "repr", "print", "format"):
            for x in args:
                self.to_str(x, st, fr, node, ("__repr__",) if name == "repr" else ("__str__", "__repr__"))
            if name == "print":
                return VN
            if name in ("str", "repr") and a0 and all(x[0] == "u" and x[1].lstrip("~") in KEYLABELS for x in a0):
                return frozenset(("u", "~" + x[1].lstrip("~")) for x in a0)
            if name == "str" and a0 and all(x[0] == "c" and x[1] in ("str", "int", "bool", "none") for x in a0):
                return frozenset(("c", "str", str(x[2])) for x in a0)
            return STR
        if name in ("int", "float", "abs", "round", "ord", "hash", "id", "sum", "divmod", "pow"):
            if any(x[0] == "u" for x in a0):
                if name in ("abs",):
                    return a0
                if name in ("hash", "ord", "id", "float") and all(x[0] == "u" and x[1].lstrip("~") in KEYLABELS for x in a0):
                    return frozenset(("u", "~" + x[1].lstrip("~")) for x in a0)
            if name == "sum":
                return self.unord_elements(a0, st, fr, node) | INT
            if name == "float":
                return FLOAT
            if name == "divmod":
                return frozenset([self.mktup([INT, INT])])
            return INT if name not in ("abs", "round", "pow") else NUM
        if name in ("bool", "callable", "any", "all"):
            if name in ("any", "all"):
                self.unord_elements(a0, st, fr, node)
            return VB
        if name == "hasattr":
            out = set()
            for a in a0:
                if a[0] == "o" and self.objs[a[1]].cls is not None:
                    for n in args[1]:
                        if n[0] == "c" and (self.prog.find_method(self.objs[a[1]].cls, n[2]) or (a[1], n[2]) in self.heap):
                            out |= {True} if self.prog.find_method(self.objs[a[1]].cls, n[2]) else {True, False}
                        else:
                            out |= {True, False}
                elif a[0] == "mod":
                    for n in args[1]:
                        if n[0] == "c" and a[1] in self.prog.modules:
                            out.add(self.prog.lookup(a[1], n[2]) is not None)
                        elif n[0] == "nc" and a[1] in self.prog.modules:
                            out |= {True, False} if self.mod_names(a[1], n) else {False}
                        else:
                            out |= {True, False}
                else:
                    out |= {True, False}
            return frozenset(TRUE if x else FALSE for x in out)
        if name == "getattr":
            out = E0
            for a in a0:
                for n in args[1]:
                    if n[0] == "nc" and a[0] == "mod" and a[1] in self.prog.modules:
                        for nm in self.mod_names(a[1], n):
                            out |= self.getattr1(a, nm, st, fr, node)
                        if len(args) > 2:
                            out |= args[2]
                        continue
                    v = self.getattr1(a, n[2] if n[0] == "c" else None, st, fr, node)
                    out |= v
                    if len(args) > 2:
                        out |= args[2]
            return out
        if name == "setattr":
            for n in args[1]:
                self.setattr(a0, n[2] if n[0] == "c" else None, args[2], st, fr, node)
            return VN
        if name == "delattr":
            for a in a0:
                if a[0] in ("o", "u", "cls"):
                    for n in args[1]:
                        self.write(st, a, n[2] if n[0] == "c" else "*", node, fr, "delattr")
            return VN
        if name == "type":
            out = E0
            for a in a0:
                if a[0] == "o" and self.objs[a[1]].cls is not None:
                    out |= frozenset([("cls", self.objs[a[1]].cls)])
                elif a[0] == "o":
                    out |= frozenset([("bi", self.objs[a[1]].kind)])
                elif a == NONE:
                    out |= frozenset([("bi", "NoneType")])
                elif a[0] == "nc":
                    out |= frozenset([("bi", "str")])
                elif a[0] == "c" or (a[0] == "t" and a[1] in BUILTIN_TYPES):
                    out |= frozenset([("bi", a[1])])
                elif a[0] == "tup":
                    out |= frozenset([("bi", "tuple")])
                else:
                    out |= U("type")
            return out
        if name == "range":
            l = self.alloc("range", None, node, fr)
            self.put(l[1], "[]", INT)
            for x in args:
                if x & VN:
                    self.deref(node, fr, "range(None)")
            return frozenset([l])
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "collections.deque"):
            if name in ("iter", "reversed"):
                for a in a0:
                    if a[0] == "o" and self.objs[a[1]].cls is not None:
                        m = self.prog.find_method(self.objs[a[1]].cls, "__reversed__" if name == "reversed" else "__iter__")
                        if m is not None:
                            return self.invoke(m, None, frozenset([a]), [], {}, st, fr, node)
            if name == "tuple" and a0 and all(x[0] == "tup" for x in a0):
                return a0
            kind = {"sorted": "list", "reversed": "iter", "collections.deque": "deque"}.get(name, name)
            l = self.alloc(kind, None, node, fr, extra=name)
            if args:
                el = (self.unord_elements if kind in ("set", "frozenset") or (name == "sorted" and "key" not in kw) else self.elements)(a0, st, fr, node)
                self.put(l[1], "[]", el)
                if name == "sorted":
                    self.note_sortcall(node, fr, self.parts(el, st, fr, node), kw)
                    self.call_keyfn(kw, el, st, fr, node)
            return frozenset([l])
        if name == "dict":
            l = self.alloc("dict", None, node, fr)
            for k, v in kw.items():
                self.put(l[1], "[]", v)
                self.put(l[1], "keys", frozenset([("c", "str", k)]))
            for a in a0:
                if a[0] == "o" and self.objs[a[1]].kind == "dict":
                    self.put(l[1], "[]", self.get(a[1], "[]"))
                    self.put(l[1], "keys", self.get(a[1], "keys"))
                else:
                    for t in self.elements(frozenset([a]), st, fr, node):
                        if t[0] == "tup" and len(t[1]) == 2:
                            self.put(l[1], "keys", t[1][0])
                            self.put(l[1], "[]", t[1][1])
            return frozenset([l])
        if name in ("min", "max"):
            if len(args) == 1 and not star:
                el = (self.elements if "key" in kw else self.unord_elements)(a0, st, fr, node)
            else:
                el = star or E0
                for x in args:
                    el |= x
            self.note_sortcall(node, fr, self.parts(el, st, fr, node), kw)
            self.call_keyfn(kw, el, st, fr, node)
            if "default" in kw:
                el = el | kw["default"]
            return el
        if name == "enumerate":
            l = self.alloc("iter", None, node, fr)
            el = self.elements(a0, st, fr, node)
            if el:
                self.put(l[1], "[]", frozenset([self.mktup([INT, el])]))
            return frozenset([l])
        if name == "zip":
            l = self.alloc("iter", None, node, fr)
            els = [self.elements(x, st, fr, node) for x in args]
            if all(els) and els:
                self.put(l[1], "[]", frozenset([self.mktup(els)]))
            return frozenset([l])
        if name in ("map", "filter"):
            l = self.alloc("iter", None, node, fr)
            els = [self.elements(x, st, fr, node) for x in args[1:]]
            if all(els) and els:
                for f in a0:
                    if f == NONE:
                        continue
                    r = self.call1(f, els, None, {}, None, st, fr, node)
                    self.put(l[1], "[]", r if name == "map" else els[0])
            return frozenset([l])
        if name == "next":
            return self.elements(a0, st, fr, node) | (args[1] if len(args) > 1 else E0)
        if name == "super":
            return U("super")
        if name.endswith(".__setattr__") or name == "object.__setattr__":
            for n in args[1]:
                self.setattr(a0, n[2] if n[0] == "c" else None, args[2], st, fr, node)
            return VN
        if name.endswith(".__getattribute__"):
            out = E0
            for a in a0:
                for n in args[1]:
                    out |= self.getattr1(a, n[2] if n[0] == "c" else None, st, fr, node)
            return out
        if name == "object":
            return U("sentinel")
        if name in ("chr", "hex", "bin"):
            return STR
        if "." in name:
            t, m = name.split(".", 1)
            out = E0
            for a in a0:
                out |= self.call_bim(a, m, args[1:], star, kw, st, fr, node)
            return out
        return ANY

    def isinst(self, v, t):
        types = []
        unknown = False
        for x in t:
            if x[0] == "tup":
                for y in x[1]:
                    types += list(y)
            else:
                types.append(x)
        out = set()
        for a in v:
            hit = set()
            for ty in types:
                hit.add(self.isinst1(a, ty))
            if True in hit:
                out.add(True)
            elif None in hit:
                out |= {True, False}
            else:
                out.add(False)
        return out

    def isinst1(self, a, ty):
        if a[0] == "nc":
            a = ("t", "str")
        if ty[0] == "ext" and "._backend." in ty[1] and a[0] in ("o", "c", "tup"):
            return False         # no class of the library derives from an extension type
        if ty[0] in ("u", "ext", "t"):
            return None
        if a[0] == "u" or a == ("t", "any"):
            return None
        if ty[0] == "bi" and ty[1] == "object":
            return True
        if a[0] == "o":
            o = self.objs[a[1]]
            if o.cls is not None:
                if ty[0] == "cls":
                    return ty[1] in self.prog.mro(o.cls)
                return False
            if ty[0] == "bi":
                return o.kind == ty[1]
            return False
        if a[0] in ("c", "t"):
            if ty[0] == "bi":
                n = a[1]
                if n == "none":
                    return ty[1] == "NoneType"
                if n == "bool" and ty[1] == "int":
                    return True
                return n == ty[1]
            return False
        if a[0] == "tup":
            return ty == ("bi", "tuple")
        if a[0] == "kw":
            return ty == ("bi", "dict")
        if a[0] == "enum":
            return ty[0] == "cls" and ty[1].name == a[1]
        if a[0] == "cls":
            return ty == ("bi", "type")
        if a[0] == "bi":
            return ty == ("bi", "type") if a[1] in BUILTIN_TYPES else False
        return None

    def call_ext(self, name, args, star, kw, st, fr, node):
        a0 = args[0] if args else E0
        self.note_ext(name, node, fr)
        base = name.split(".")[-1]
        if "._backend." in name:
            got = star or E0
            for x in list(args) + list(kw.values()):
                got |= x
            self.ext_args.setdefault((self.phase, name), set()).update(
                y for i in self.reachable(got) for fl in self.fields.get(i, ()) for y in self.get(i, fl) if y[0] == "u")
            self.ext_args[(self.phase, name)].update(y for y in self.parts(got, st, fr, node) if y[0] == "u")
        if name.startswith(("operator.", "_operator.")) and base.strip("_") in ("lt", "le", "gt", "ge") and len(args) > 1:
            self.note_order(args[0], args[1], base, node, fr, st)
            return VB
        if name.startswith(("heapq.", "bisect.")):
            every = E0
            for x in args:
                every |= x
            if "key" in kw:
                self.call_keyfn(kw, self.parts(every, st, fr, node), st, fr, node)
            else:
                self.note_order(every, every, name, node, fr, st)
        if base == "deque":
            return self.call_builtin("collections.deque", args, star, kw, None, st, fr, node)
        if base in ("ThreadPoolExecutor", "ProcessPoolExecutor"):
            return frozenset([("x", "executor")])
        if base in ("deepcopy", "copy") and name.startswith("copy."):
            return self.deepcopy(a0, st, fr, node, {}, base == "deepcopy")
        if name.startswith("math."):
            if base in ("floor", "ceil", "gcd", "comb", "factorial"):
                return INT
            return FLOAT
        if name.startswith("random."):
            if base in ("shuffle",):
                for a in a0:
                    self.write(st, a, "[]", node, fr, "random.shuffle")
                return VN
            if base in ("choice",):
                return self.elements(a0, st, fr, node)
            return FLOAT if base in ("random", "uniform") else INT
        if base == "defaultdict":
            l = self.alloc("dict", None, node, fr)
            for f in a0:
                self.put(l[1], "[]", self.call1(f, [], None, {}, None, st, fr, node))
            return frozenset([l])
        if base in ("Counter", "OrderedDict"):
            l = self.alloc("dict", None, node, fr)
            return frozenset([l])
        if base in ("heappush",):
            for a in a0:
                if a[0] in ("o", "u"):
                    self.write(st, a, "[]", node, fr, "heappush")
                    if a[0] == "o":
                        self.put(a[1], "[]", args[1])
            return VN
        if base in ("heappop",):
            for a in a0:
                if a[0] in ("o", "u"):
                    self.write(st, a, "[]", node, fr, "heappop")
            return self.elements(a0, st, fr, node)
        return U("ext:" + name)

    def deepcopy(self, v, st, fr, node, memo, deep):
        out = E0
        for a in v:
            if a[0] == "o":
                if a[1] in memo:
                    out |= frozenset([memo[a[1]]])
                    continue
                o = self.objs[a[1]]
                n = self.alloc(o.kind, o.cls, node, fr, extra=("copy", a[1]))
                memo[a[1]] = n
                for f in list(self.fields.get(a[1], ())):
                    fv = self.get(a[1], f)
                    self.put(n[1], f, self.deepcopy(fv, st, fr, node, memo, True) if deep else fv)
                out |= frozenset([n])
            elif a[0] == "tup" and deep:
                out |= frozenset([("tup", tuple(self.deepcopy(x, st, fr, node, memo, True) for x in a[1]))])
            else:
                out |= frozenset([a])
        return out

    # ------------------------------------------------------------ queries
    def reachable(self, v):
        """object ids reachable from value v through fields."""
        seen = set()
        work = list(v)
        while work:
            a = work.pop()
            if a[0] == "o":
                if a[1] in seen:
                    continue
                seen.add(a[1])
                for f in self.fields.get(a[1], ()):
                    work.extend(self.get(a[1], f))
            elif a[0] in ("tup",):
                for x in a[1]:
                    work.extend(x)
            elif a[0] == "kw":
                for _, x in a[1]:
                    work.extend(x)
            elif a[0] == "fut":
                work.extend(a[1])
        return seen


_inner_cache = {}


def _has_inner(node):
    r = _inner_cache.get(node)
    if r is None:
        r = False
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                r = True
                break
        _inner_cache[node] = r
    return r


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n
