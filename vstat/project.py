"""Loads and resolves the source of the repository (syntax only, nothing is run).

Entities
  Mod        a module: syntax tree + table of its global bindings
  FuncInfo   a function or method
  ClassInfo  a class with its C3-linearised bases (repo classes; externals are
             kept as dotted strings)
"""
from __future__ import annotations
import ast
import os
from .normal import normalise

REPO = os.environ.get("VSTAT_REPO", "/repo")
PKG = "pythagoras"


class AnalysisBroken(Exception):
    """The analysis lost its footing (vanished anchor, unparsable file...)."""


class Mod:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.names = {}          # name -> binding tuple
        self.stars = []          # module names star-imported (in order)
        self.assign_count = {}   # name -> number of module level assignments
        self.global_written = set()   # names declared `global` in functions

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class FuncInfo:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name
        self.kind = "function"      # function|method|static|class|property
        self.prop_kind = None       # getter|setter|deleter
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else (
                d.attr if isinstance(d, ast.Attribute) else None)
            if n == "staticmethod":
                self.kind = "static"
            elif n == "classmethod":
                self.kind = "class"
            elif n in ("property", "cached_property"):
                self.kind, self.prop_kind = "property", "getter"
            elif n in ("setter", "deleter"):
                self.kind, self.prop_kind = "property", n
        if cls is not None and self.kind == "function":
            self.kind = "method"
            if node.name in ("__new__",):
                self.kind = "static"
            elif node.name in ("__init_subclass__", "__class_getitem__"):
                self.kind = "class"
        self.is_generator = _is_generator(node)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)

    @property
    def qual(self):
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        return self.name

    @property
    def fq(self):
        return f"{self.mod.name}:{self.qual}"

    def loc(self, node=None):
        node = node or self.node
        return f"{self.mod.rel}:{getattr(node, 'lineno', 0)}"

    def params(self):
        a = self.node.args
        return ([x.arg for x in a.posonlyargs] + [x.arg for x in a.args],
                [x.arg for x in a.kwonlyargs],
                a.vararg.arg if a.vararg else None,
                a.kwarg.arg if a.kwarg else None)

    def __repr__(self):
        return f"<fn {self.fq}>"


def _is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass
        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef
    v = V()
    for s in node.body:
        v.visit(s)
    return v.found


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}     # name -> FuncInfo (getter for properties)
        self.setters = {}
        self.attrs = {}       # class level assignments: name -> expr | None
        self.annots = {}      # class level annotations
        self.nested = {}      # nested classes
        self.bases = []       # ClassInfo | str
        self.mro = [self]
        for s in node.body:
            self._body(s)

    def _body(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.mod, s, self)
            if f.prop_kind in ("setter", "deleter"):
                self.setters[s.name] = f
            else:
                self.methods[s.name] = f
        elif isinstance(s, ast.ClassDef):
            c = ClassInfo(self.mod, s)
            c.name = f"{self.name}.{s.name}"
            self.nested[s.name] = c
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.attrs[n.id] = s.value if isinstance(t, ast.Name) else None
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.annots[s.target.id] = s.annotation
            if s.value is not None:
                self.attrs[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            for b in ("body", "orelse", "finalbody"):
                for x in getattr(s, b, []):
                    self._body(x)

    @property
    def fq(self):
        return f"{self.mod.name}:{self.name}"

    def loc(self):
        return f"{self.mod.rel}:{self.node.lineno}"

    def find(self, name):
        """First (ClassInfo, FuncInfo) in the MRO that defines method name."""
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    return None
        return None

    def find_attr(self, name):
        for c in self.mro:
            if isinstance(c, ClassInfo) and (name in c.attrs or name in c.annots):
                return c
        return None

    def is_sub(self, other):
        return any(c is other for c in self.mro)

    def ext_bases(self):
        return [c for c in self.mro if isinstance(c, str)]

    def __repr__(self):
        return f"<class {self.fq}>"


def _skip_dir(d):
    return (d.startswith("_000_tests") or "OLD" in d or "LEGACY" in d
            or d.startswith(".") or d == "__pycache__" or "=====" in d)


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.classes = {}     # fq -> ClassInfo
        self.funcs = {}       # fq -> FuncInfo (module level and methods)
        self._load()
        self._link()

    # ------------------------------------------------------------ loading
    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for dp, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if not _skip_dir(d))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{path}: {e}")
                m = Mod(name, path, normalise(tree), is_pkg)
                self.mods[name] = m
        for m in self.mods.values():
            self._collect(m)

    def _collect(self, m):
        def add(name, b):
            m.names[name] = b

        def reg(c):
            self.classes[c.fq] = c
            for f in list(c.methods.values()) + list(c.setters.values()):
                self.funcs[f.fq] = f
            for n in c.nested.values():
                reg(n)

        def stmts(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(m, s)
                    self.funcs[f.fq] = f
                    add(s.name, ("func", f))
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(m, s)
                    add(s.name, ("class", c))
                    reg(c)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            add(a.asname, ("mod", a.name))
                        else:
                            add(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    base = self._from_base(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(base)
                            add(f"*{len(m.stars)}", ("star", base))
                        else:
                            add(a.asname or a.name, ("from", base, a.name))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.assign_count[n.id] = m.assign_count.get(n.id, 0) + 1
                                add(n.id, ("var", s.value if isinstance(t, ast.Name) else None))
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        m.assign_count[s.target.id] = m.assign_count.get(s.target.id, 0) + 1
                        add(s.target.id, ("var", s.value))
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name):
                        m.assign_count[s.target.id] = m.assign_count.get(s.target.id, 0) + 2
                        add(s.target.id, ("var", None))
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for b in ("body", "orelse", "finalbody"):
                        stmts(getattr(s, b, []))
                    for h in getattr(s, "handlers", []):
                        stmts(h.body)
        stmts(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.global_written |= set(n.names)

    def _from_base(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts += s.module.split(".")
        return ".".join(parts)

    # ------------------------------------------------------------ resolving
    def resolve(self, mod, name, _seen=None):
        """Binding of a global name seen from module mod.

        Returns ("func", FuncInfo) ("class", ClassInfo) ("mod", dotted)
        ("var", Mod, name, expr) ("ext", dotted) or None.
        """
        _seen = _seen or set()
        if (mod.name, name) in _seen:
            return None
        _seen = _seen | {(mod.name, name)}
        b = mod.names.get(name)
        if b is not None:
            if b[0] in ("func", "class"):
                return b
            if b[0] == "mod":
                return ("mod", b[1])
            if b[0] == "var":
                return ("var", mod, name, b[1])
            if b[0] == "from":
                return self._resolve_from(b[1], b[2], _seen)
        for st in reversed(mod.stars):
            if name.startswith("_"):
                continue
            m2 = self.mods.get(st)
            if m2 is None:
                continue
            r = self.resolve(m2, name, _seen)
            if r is not None:
                return r
        if mod.is_pkg and f"{mod.name}.{name}" in self.mods:
            return ("mod", f"{mod.name}.{name}")
        return None

    def _resolve_from(self, base, name, seen):
        m2 = self.mods.get(base)
        if m2 is None:
            if base.split(".")[0] == PKG:
                return None
            return ("ext", f"{base}.{name}" if base else name)
        r = self.resolve(m2, name, seen)
        if r is not None:
            return r
        if f"{base}.{name}" in self.mods:
            return ("mod", f"{base}.{name}")
        return None

    def resolve_expr(self, mod, node):
        """Resolve a Name / dotted Attribute used at module or class level."""
        if isinstance(node, ast.Name):
            r = self.resolve(mod, node.id)
            return r if r is not None else ("ext", node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(mod, node.value)
            if r is None:
                return None
            if r[0] == "mod":
                m2 = self.mods.get(r[1])
                if m2 is not None:
                    return self.resolve(m2, node.attr) or ("ext", f"{r[1]}.{node.attr}")
                return ("ext", f"{r[1]}.{node.attr}")
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{node.attr}")
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(mod, node.value)
        return None

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if r is None:
                    c.bases.append("?")
                elif r[0] == "class":
                    c.bases.append(r[1])
                elif r[0] in ("ext", "mod"):
                    c.bases.append(r[1])
                else:
                    c.bases.append("?")
        done = {}

        def lin(c, stack=()):
            if isinstance(c, str):
                return [c]
            if c.fq in done:
                return done[c.fq]
            if c in stack:
                raise AnalysisBroken(f"inheritance cycle at {c.fq}")
            seqs = [list(lin(b, stack + (c,))) for b in c.bases] + [list(c.bases)]
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            done[c.fq] = out
            return out
        for c in self.classes.values():
            c.mro = lin(c)
        self._subs = {}
        for c in self.classes.values():
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    self._subs.setdefault(k.fq, []).append(c)
        # attribute names ever stored on instances / classes, per attr name
        self.inst_attr_writes = {}
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    self.inst_attr_writes.setdefault(n.attr, []).append((m, n))

    # ------------------------------------------------------------ queries
    def subclasses(self, cls):
        """cls and all its (transitive) subclasses."""
        return self._subs.get(cls.fq, [])

    def cls(self, name, optional=False):
        c = [c for c in self.classes.values() if c.name == name]
        if len(c) == 1:
            return c[0]
        if not c and optional:
            return None
        raise AnalysisBroken(
            f"anchor class {name}: {len(c)} definitions found")

    def func(self, name, optional=False):
        """'f' (module level function) or 'Class.meth'."""
        if "." in name:
            cn, mn = name.rsplit(".", 1)
            c = self.cls(cn, optional)
            if c is None:
                return None
            f = c.find(mn)
            if f is None and not optional:
                raise AnalysisBroken(f"anchor {name} not found")
            return f
        fs = [f for f in self.funcs.values() if f.cls is None and f.name == name]
        if len(fs) == 1:
            return fs[0]
        if not fs and optional:
            return None
        raise AnalysisBroken(f"anchor function {name}: {len(fs)} definitions found")

    def class_by_name(self, name):
        if not hasattr(self, "_cbn"):
            self._cbn = {}
            for c in self.classes.values():
                self._cbn.setdefault(c.name, []).append(c)
        l = self._cbn.get(name)
        return l[0] if l and len(l) == 1 else None

    def by_name(self, name):
        if not hasattr(self, "_fbn"):
            self._fbn = {}
            for f in self.funcs.values():
                self._fbn.setdefault(f.name, []).append(f)
        return self._fbn.get(name, ())

    def all_functions(self):
        return list(self.funcs.values())
