"""Loader: parses every non-test Python module of pydatastructs and resolves
modules, classes (with MRO), functions and imports.  Nothing is executed."""
import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "pydatastructs"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is missing: error exit, never a pass."""


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.table = {}      # name -> list of bindings (kind, payload)

    def __repr__(self):
        return "<module %s>" % self.name


class FuncInfo:
    """A function definition (def or lambda)."""
    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = []
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                self.decorators.append(ast.unparse(d))
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            self.is_gen = _has_yield(node)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return "property" in self.decorators

    def __repr__(self):
        return "<func %s:%s>" % (self.module.name, self.qual)


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}     # name -> FuncInfo (last definition wins)
        self.setters = {}
        self.attrs = {}       # name -> expr
        self.base_exprs = node.bases
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.name


class Program:
    def __init__(self, repo=None, extra=None):
        self.repo = repo or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory missing: " + root)
        files = []
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "benchmarks"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        for p in files:
            rel = os.path.relpath(p, self.repo)
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.digest.update(rel.encode() + b"\0" + src.encode())
            self.add_module(".".join(parts), rel, src, is_pkg)
        for name, src in (extra or {}).items():
            self.add_module(name, "<client:%s>" % name, src, False)
        self.classes_by_name = {}
        for m in self.modules.values():
            for k, bl in m.table.items():
                for b in bl:
                    if b[0] == "class":
                        self.classes_by_name.setdefault(k, []).append(b[1])

    def add_module(self, name, rel, src, is_pkg):
        try:
            tree = ast.parse(src, rel)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        m = ModuleInfo(name, rel, tree, is_pkg)
        self.modules[name] = m
        self._collect(m, tree.body)
        return m

    # -- module tables ------------------------------------------------
    def _collect(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.table.setdefault(st.name, []).append(
                    ("func", FuncInfo(st, m, st.name)))
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st, m)
                self._collect_class(ci)
                m.table.setdefault(st.name, []).append(("class", ci))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.table.setdefault(a.asname, []).append(("mod", a.name))
                    else:
                        top = a.name.split(".")[0]
                        m.table.setdefault(top, []).append(("mod", top))
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.table.setdefault("*", []).append(("star", base))
                    else:
                        m.table.setdefault(a.asname or a.name, []).append(
                            ("from", base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.table.setdefault(t.id, []).append(("expr", st.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts):
                                    v = st.value.elts[i]
                                else:
                                    v = ast.copy_location(ast.Subscript(st.value, ast.copy_location(ast.Constant(i), st.value), ast.Load()), st.value)
                                m.table.setdefault(x.id, []).append(("expr", v))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.table.setdefault(st.target.id, []).append(("expr", st.value))
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._collect(m, st.body)
                for h in getattr(st, "handlers", []):
                    self._collect(m, h.body)
                self._collect(m, getattr(st, "orelse", []))
                self._collect(m, getattr(st, "finalbody", []))

    def resolve_from(self, m, st):
        if st.level == 0:
            return st.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts += st.module.split(".")
        return ".".join(parts)

    def _collect_class(self, ci):
        for st in ci.node.body:
            if isinstance(st, ast.FunctionDef):
                fi = FuncInfo(st, ci.module, ci.name + "." + st.name, ci)
                if any(d.endswith(".setter") for d in fi.decorators):
                    ci.setters[st.name] = fi
                else:
                    ci.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for x, v in zip(t.elts, st.value.elts):
                            if isinstance(x, ast.Name):
                                ci.attrs[x.id] = v
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                ci.attrs[st.target.id] = st.value

    # -- lookups ------------------------------------------------------
    def lookup(self, modname, name, seen=None):
        """-> binding: ('func',FuncInfo)|('class',ClassInfo)|('mod',name)|
        ('expr',expr,module)|('ext',modname,name)|None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname, name)
        for b in reversed(m.table.get(name, [])):
            if b[0] in ("func", "class"):
                return b
            if b[0] == "mod":
                return b
            if b[0] == "expr":
                return ("expr", b[1], m)
            if b[0] == "from":
                sub = b[1] + "." + b[2]
                r = None
                if b[1] in self.modules:
                    r = self.lookup(b[1], b[2], seen)
                    if r is not None:
                        return r
                    if sub in self.modules:
                        return ("mod", sub)
                return ("ext", b[1], b[2])
        for b in m.table.get("*", []):
            r = self.lookup(b[1], name, seen)
            if r is not None and r[0] != "ext":
                return r
        if modname + "." + name in self.modules:
            return ("mod", modname + "." + name)
        return None

    def names(self, modname, seen=None):
        """all names a module (or what it star-imports) binds inside the library"""
        seen = seen if seen is not None else set()
        if modname in seen or modname not in self.modules:
            return set()
        seen.add(modname)
        m = self.modules[modname]
        out = {k for k in m.table if k != "*" and self.lookup(modname, k) is not None}
        for b in m.table.get("*", []):
            out |= self.names(b[1], seen)
        pre = modname + "."
        out |= {k[len(pre):] for k in self.modules if k.startswith(pre) and "." not in k[len(pre):]}
        return out

    def mro(self, ci):
        if ci._mro is None:
            bases = []
            for e in ci.base_exprs:
                b = self.resolve_class_expr(ci.module, e)
                if b is not None:
                    bases.append(b)
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            out = [ci]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in o[1:] for o in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
            ci._mro = out
        return ci._mro

    def resolve_class_expr(self, module, e):
        if isinstance(e, ast.Name):
            b = self.lookup(module.name, e.id)
            if b and b[0] == "class":
                return b[1]
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.lookup(module.name, e.value.id)
            if b and b[0] == "mod":
                b2 = self.lookup(b[1], e.attr)
                if b2 and b2[0] == "class":
                    return b2[1]
        return None

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, ci, name):
        for c in self.mro(ci):
            if name in c.setters:
                return c.setters[name]
        return None

    def find_class_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def next_in_mro(self, ci, after):
        m = self.mro(ci)
        if after in m:
            return m[m.index(after) + 1:]
        return m[1:]

    def require_class(self, name):
        cs = self.classes_by_name.get(name)
        if not cs:
            raise AnalysisBroken("class %s not found" % name)
        return cs[0]

    def require_func(self, modname, name):
        b = self.lookup(modname, name)
        if not b or b[0] != "func":
            raise AnalysisBroken("function %s.%s not found" % (modname, name))
        return b[1]

    def all_functions(self):
        for m in self.modules.values():
            for bl in m.table.values():
                for b in bl:
                    if b[0] == "func" and b[1].module is m:
                        yield b[1]
                    elif b[0] == "class" and b[1].module is m:
                        for f in list(b[1].methods.values()) + list(b[1].setters.values()):
                            yield f
