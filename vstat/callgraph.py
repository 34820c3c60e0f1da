"""A class hierarchy call graph of the package, from the syntax trees alone.

Every reference to a function, class or method name is an edge (calls, references
passed on, properties that are read, items, `with`, operators), so the graph
contains every call that the library can make in its own code, and more.
Receivers are narrowed only where the class is certain: self, cls, super(), a
class name, a module and, through annotations and constructors, a local name.
"""
import ast
from .project import ClassInfo, PKG

DUNDER = {ast.Add: "__add__", ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.In: "__contains__",
          ast.NotIn: "__contains__"}
CONTAINER = {"get", "pop", "add", "update", "clear", "values", "keys", "items", "append", "copy",
             "remove", "discard", "join", "write", "flush", "read", "close", "start", "visit", "insert"}


def assigned(n):
    """[(target, value)] of an assignment, pair by pair where both sides are displays."""
    if isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
        return [(n.target, n.value)] if n.value else []
    if isinstance(n, (ast.For, ast.comprehension)):
        # a loop over a display binds its elements one after another
        return [(n.target, x) for x in n.iter.elts] if isinstance(n.iter, (ast.Tuple, ast.List)) and not any(
            isinstance(x, ast.Starred) for x in n.iter.elts) else []
    if not isinstance(n, ast.Assign):
        return []
    out = []
    for t in n.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts) \
                and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts):
            out += list(zip(t.elts, n.value.elts))
        else:
            out.append((t, n.value))
    return out


class Graph:
    def __init__(self, P):
        self.P = P
        self.edges = {}     # FuncInfo -> {FuncInfo: ast node}
        self.weak = set()   # calls of a parameter: it is not known what is called
        self.ext = {}       # FuncInfo -> [(dotted, ast node)]
        for f in P.all_functions():
            self._build(f)

    # ------------------------------------------------------------ building
    def _named(self, name, certain=None):
        out = []
        for c in self.P.classes.values():
            if certain is not None and not any(c.is_sub(k) or k.is_sub(c) for k in certain):
                continue
            for d in (c.methods, c.setters):
                if name in d:
                    out.append(d[name])
        return out

    def _locals(self, f):
        local = set()
        a = f.node.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        for x in allargs + [y for y in (a.vararg, a.kwarg) if y]:
            local.add(x.arg)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        return local, (allargs[0].arg if f.cls is not None and allargs and f.kind != "static" else None)

    def _ctor(self, c):
        out = []
        for n in ("__new__", "__init__", "__post_init__", "__init_subclass__"):
            f = c.find(n)
            if f:
                out.append(f)
        for k in c.mro:
            if not isinstance(k, ClassInfo):
                break
        return out

    def _build(self, f):
        P, mod = self.P, f.mod
        es, xs = {}, []
        self.edges[f], self.ext[f] = es, xs
        local, first = self._locals(f)
        imps = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for x in n.names:
                    imps[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for x in n.names:
                    imps[x.asname or x.name] = f"{n.module}.{x.name}"

        def add(g, node):
            es.setdefault(g, node)

        def dotted(v):
            """The outside name of something imported in the function."""
            if isinstance(v, ast.Name) and v.id in imps and imps[v.id].split(".")[0] != PKG:
                return imps[v.id]
            if isinstance(v, ast.Attribute) and dotted(v.value):
                return f"{dotted(v.value)}.{v.attr}"
            return None

        def rooted_local(v):
            while isinstance(v, (ast.Attribute, ast.Subscript)):
                v = v.value
            return isinstance(v, ast.Name) and v.id in local

        def receiver(v):
            """Classes of a receiver, or None when unknown, or ('ext', dotted)."""
            if dotted(v):
                return ("ext", dotted(v))
            if isinstance(v, ast.Name):
                if v.id == first:
                    return [f.cls]
                if v.id not in local:
                    r = P.resolve(mod, v.id)
                    if r and r[0] == "class":
                        return [r[1]]
                    if r and r[0] in ("mod", "ext"):
                        return r
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id not in local:
                if v.func.id == "super" and f.cls is not None:
                    return ("super", f.cls)
                r = P.resolve(mod, v.func.id)
                if r and r[0] == "class":
                    return [r[1]]
                if v.func.id in ("list", "dict", "set", "str", "tuple", "sorted", "open", "len"):
                    return ("ext", v.func.id)
            if isinstance(v, ast.Attribute):
                r = P.resolve_expr(mod, v)
                root = v
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and root.id in local:
                    return None
                if r and r[0] in ("mod", "ext"):
                    return r if r[0] == "mod" or self._is_import(mod, root) else None
                if r and r[0] == "class":
                    return [r[1]]
            if isinstance(v, (ast.Constant, ast.JoinedStr, ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
                return ("ext", "literal")
            return None

        # functions started in another process do not run here
        away = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if d == "Process":
                    away |= {k.value for k in n.keywords if k.arg == "target"}
        for n in ast.walk(f.node):
            if n in away:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local:
                r = P.resolve(mod, n.id)
                if dotted(n):
                    xs.append((dotted(n), n))
                elif r is None:
                    xs.append((n.id, n))
                elif r[0] == "func":
                    add(r[1], n)
                elif r[0] == "class":
                    pass
                elif r[0] == "ext":
                    xs.append((r[1], n))
            elif isinstance(n, ast.Attribute):
                rv = receiver(n.value)
                if isinstance(rv, tuple) and rv[0] in ("mod", "ext"):
                    r = P.resolve_expr(mod, n) if rv[0] == "mod" else None
                    if r and r[0] == "func":
                        add(r[1], n)
                    elif r and r[0] == "class":
                        pass
                    else:
                        xs.append((f"{rv[1]}.{n.attr}", n))
                elif isinstance(rv, tuple) and rv[0] == "super":
                    for c in P.subclasses(rv[1]):
                        seen = False
                        for k in c.mro:
                            if not isinstance(k, ClassInfo):
                                continue
                            if seen and n.attr in k.methods:
                                add(k.methods[n.attr], n)
                                break
                            if k is rv[1]:
                                seen = True
                elif rv is not None:
                    for c in rv:
                        for k in P.subclasses(c):
                            g = k.find(n.attr)
                            if g:
                                add(g, n)
                        if n.attr in c.setters:
                            add(c.setters[n.attr], n)
                else:
                    if n.attr.startswith("__") and n.attr != "__class__":
                        pass
                    for g in self._named(n.attr):
                        add(g, n)
            elif isinstance(n, ast.With):
                for it in n.items:
                    rv = receiver(it.context_expr)
                    for m in ("__enter__", "__exit__"):
                        for g in self._named(m, rv if isinstance(rv, list) else None):
                            add(g, n)
            elif isinstance(n, (ast.Compare, ast.BinOp)):
                ops = n.ops if isinstance(n, ast.Compare) else [n.op]
                for o in ops:
                    m = DUNDER.get(type(o))
                    if m:
                        for g in self._named(m):
                            add(g, n)
            elif isinstance(n, ast.Subscript):
                m = {"Load": "__getitem__", "Store": "__setitem__", "Del": "__delitem__"}[type(n.ctx).__name__]
                for g in self._named(m):
                    add(g, n)
            if isinstance(n, ast.Call):
                g, callee = None, n.func
                r = P.resolve_expr(mod, callee) if not rooted_local(callee) else None
                if r and r[0] == "class":
                    for k in self._ctor(r[1]):
                        add(k, n)
                elif not (r and r[0] in ("func", "ext", "mod")):
                    weak = isinstance(callee, ast.Name) and any(
                        x.arg == callee.id for x in ast.walk(f.node) if isinstance(x, ast.arg))
                    if isinstance(callee, ast.Call) and isinstance(callee.func, ast.Name) and callee.func.id == "getattr" \
                            and len(callee.args) > 1 and not isinstance(callee.args[1], ast.Constant):
                        weak = True     # whatever has that name
                    if isinstance(callee, ast.Attribute) and not self._named(callee.attr) \
                            and callee.attr in P.inst_attr_writes \
                            and self._value(f, callee, local, first) is None:
                        weak = True     # whatever was once stored there
                    for k in self._called(f, callee, local, first):
                        if weak and k not in es:
                            self.weak.add((f, k))
                        elif not weak:
                            self.weak.discard((f, k))
                        add(k, n)
                if isinstance(callee, ast.Name) and callee.id not in local:
                    conv = {"len": "__len__", "str": "__str__", "repr": "__repr__", "hash": "__hash__",
                            "next": "__next__", "iter": "__iter__", "bool": "__bool__"}.get(callee.id)
                    if conv:
                        for k in self._named(conv):
                            add(k, n)

    def _called(self, f, callee, local, first):
        """What a call of a computed value can run."""
        if isinstance(callee, ast.Attribute):
            named = self._named(callee.attr)
            props = [g for g in named if g.prop_kind == "getter"]
            if props and len(props) == len([g for g in named if g.prop_kind is None or g.prop_kind == "getter"]):
                out = []
                for g in props:
                    v = self._returned(g, frozenset())
                    if v is None:
                        return self._named("__call__")
                    out += self._run(v)
                return out
            if named or callee.attr not in self.P.inst_attr_writes:
                return []     # a method, or nothing that the package ever stored there
        elif isinstance(callee, ast.Name) and callee.id not in local:
            return []         # a builtin
        elif isinstance(callee, ast.Name) and callee.id == first:
            return [y for k in self.P.subclasses(f.cls) for y in self._ctor(k)]
        v = self._value(f, callee, local, first)
        if v is None:
            return self._named("__call__")
        return self._run(v)

    def _run(self, v):
        out = []
        for kind, c in v:
            if kind == "cls" and c is not None:
                out += self._ctor(c)
            elif kind == "inst" and c is not None:
                out += [k.find("__call__") for k in self.P.subclasses(c) if k.find("__call__")]
        return out

    def _value(self, f, e, local, first, seen=frozenset()):
        """Set of ('cls'|'inst', class or None) an expression can be, or None."""
        P = self.P
        if isinstance(e, ast.Name):
            if e.id in local:
                if e.id in seen:
                    return set()
                out, bound = set(), False
                for n in ast.walk(f.node):
                    if isinstance(n, ast.arg) and n.arg == e.id:
                        if n.annotation is not None and "type" in {
                                y.id for y in ast.walk(n.annotation) if isinstance(y, ast.Name)}:
                            out.add(("cls", None))
                            bound = True
                            continue
                        if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "issubclass" and y.args
                               and isinstance(y.args[0], ast.Name) and y.args[0].id == e.id for y in ast.walk(f.node)):
                            out.add(("cls", None))
                            bound = True
                            continue
                        v = self._given(f, e.id, seen)
                        if v is None:
                            return None
                        out |= v
                        bound = True
                        continue
                    if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                        if not any(t is n for a in ast.walk(f.node) for t, _ in assigned(a)):
                            return None
                for a in ast.walk(f.node):
                    for t, val in assigned(a):
                        if isinstance(t, ast.Name) and t.id == e.id:
                            v = self._value(f, val, local, first, seen | {e.id})
                            if v is None:
                                return None
                            out |= v
                            bound = True
                return out if bound else None
            return self._global(f.mod, e)
        if isinstance(e, ast.Lambda) or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Attribute):
            if e.attr == "__class__":
                return {("cls", None)}
            if e.attr not in P.inst_attr_writes and any(
                    g.prop_kind is None for g in self._named(e.attr)):
                return set()     # a bound method: the reference itself is an edge
            props = [g for g in self._named(e.attr) if g.prop_kind == "getter"]
            if props and e.attr not in P.inst_attr_writes:
                out = set()
                for g in props:
                    v = self._returned(g, seen)
                    if v is None:
                        return None
                    out |= v
                return out
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in local:
                return self._global(f.mod, e)
            if not isinstance(root, ast.Name) and e.attr not in P.inst_attr_writes and not self._named(e.attr):
                ks = [k for k in P.classes.values() if k.name == e.attr]
                if ks:
                    return {("cls", k) for k in ks}
            return self._stored(e.attr, seen)
        if isinstance(e, ast.Subscript):
            return self._value(f, e.value, local, first, seen)
        if isinstance(e, ast.Call):
            c = e.func
            if isinstance(c, ast.Name) and c.id == "type" and "type" not in local and len(e.args) == 1:
                if isinstance(e.args[0], ast.Name) and e.args[0].id == first:
                    return {("cls", k) for k in P.subclasses(f.cls)}
                return {("cls", None)}
            if isinstance(c, ast.Attribute) and c.attr == "get":
                return self._value(f, c.value, local, first, seen)
            if (c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", "")) == "partial" and e.args:
                return self._value(f, e.args[0], local, first, seen)
            if isinstance(c, ast.Name) and c.id not in local:
                r = P.resolve(f.mod, c.id)
                if r and r[0] == "func":
                    return self._returned(r[1], seen)
            elif isinstance(c, ast.Attribute):
                ms = [g for g in self._named(c.attr) if g.prop_kind is None]
                if ms and isinstance(c.value, ast.Name) and c.value.id == first:
                    ms = [k.find(c.attr) for k in P.subclasses(f.cls)]
                if ms and c.attr not in CONTAINER and c.attr not in P.inst_attr_writes and all(ms):
                    out = set()
                    for g in set(ms):
                        v = self._returned(g, seen)
                        if v is None:
                            return None
                        out |= v
                    return out
            v = self._value(f, c, local, first, seen)
            if v and all(k == "cls" for k, _ in v):
                return {("inst", c) for _, c in v}
            return None
        if isinstance(e, ast.IfExp):
            a, b = (self._value(f, x, local, first, seen) for x in (e.body, e.orelse))
            return None if a is None or b is None else a | b
        return None

    def _stored(self, name, seen):
        """What the package stores in attributes of this name."""
        if ("attr", name) in seen:
            return set()
        out, got = set(), False
        for g in self.P.all_functions():
            for n in ast.walk(g.node):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                    return None
                for t, val in assigned(n):
                    if isinstance(t, ast.Attribute) and t.attr == name:
                        got = True
                        v = self._value(g, val, *self._locals(g), seen | {("attr", name)})
                        if v is None:
                            return None
                        out |= v
        return out if got else None

    def _given(self, f, param, seen):
        """What the package passes to a parameter of one of its helpers, or None."""
        if not f.name.startswith("_") or f.name.endswith("__") or ("param", f.fq, param) in seen:
            return None
        pos, kwo, va, kw = f.params()
        if param in (va, kw):
            return None
        if f.kind in ("method", "class", "property"):
            if pos and pos[0] == param:
                return None
            pos = pos[1:]
        out, got = set(), False
        seen = seen | {("param", f.fq, param)}
        for g in self.P.all_functions():
            for n in ast.walk(g.node):
                if not isinstance(n, ast.Call) or (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)) != f.name:
                    continue
                e = next((k.value for k in n.keywords if k.arg == param), None)
                if e is None and param in pos:
                    k = pos.index(param)
                    if any(isinstance(a, ast.Starred) for a in n.args[:k + 1]):
                        return None
                    if k < len(n.args):
                        e = n.args[k]
                if e is None:
                    if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
                        return None
                    continue
                v = self._value(g, e, *self._locals(g), seen)
                if v is None:
                    return None
                out |= v
                got = True
        return out if got else None

    def _returned(self, g, seen):
        """What a function or property of the package returns, or None."""
        if ("ret", g.fq) in seen:
            return set()
        seen = seen | {("ret", g.fq)}
        a = g.node.returns
        if a is not None:
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode="eval").body
                except SyntaxError:
                    return None
            if isinstance(a, ast.Constant) and a.value is None:
                return set()
            if isinstance(a, (ast.Name, ast.Attribute)):
                r = self.P.resolve_expr(g.mod, a)
                if r and r[0] == "class":
                    return {("inst", r[1])}
                if isinstance(a, ast.Name) and a.id in ("str", "int", "bool", "float", "dict", "list", "bytes"):
                    return set()
        rs = [n for n in ast.walk(g.node) if isinstance(n, ast.Return) and n.value is not None]
        out = set()
        for n in rs:
            v = self._value(g, n.value, *self._locals(g), seen)
            if v is None:
                return None
            out |= v
        return out if rs else None

    def _global(self, mod, e):
        r = self.P.resolve_expr(mod, e)
        if r is None:
            return None
        if r[0] == "class":
            return {("cls", r[1])}
        if r[0] in ("func", "ext", "mod"):
            return set()
        if r[0] == "var" and r[3] is not None:
            x, out = r[3], set()
            items = []
            if isinstance(x, ast.Dict):
                items = x.values
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "dict" and not x.args:
                items = [k.value for k in x.keywords]
            elif isinstance(x, (ast.List, ast.Tuple, ast.Set)):
                items = x.elts
            elif (isinstance(x, (ast.DictComp, ast.ListComp)) and len(x.generators) == 1
                  and isinstance(x.generators[0].target, ast.Name)):
                v, g = (x.value if isinstance(x, ast.DictComp) else x.elt), x.generators[0]
                if (isinstance(v, ast.Name) and v.id == g.target.id
                        and isinstance(g.iter, (ast.List, ast.Tuple, ast.Set))):
                    items = g.iter.elts
            if not items:
                return None
            for i in items:
                v = self._global(r[1], i)
                if v is None:
                    return None
                out |= v
            return out
        return None

    def _is_import(self, mod, root):
        b = mod.names.get(root.id) if isinstance(root, ast.Name) else None
        return b is not None and b[0] in ("mod", "from")

    # ------------------------------------------------------------ queries
    def reach(self, roots, stop=lambda f: False, strong=False):
        """{function: (caller, node)} reachable from roots; stop nodes are not expanded."""
        seen = {r: None for r in roots}
        todo = list(roots)
        while todo:
            f = todo.pop()
            if stop(f):
                continue
            for g, node in self.edges.get(f, {}).items():
                if g not in seen and not (strong and (f, g) in self.weak):
                    seen[g] = (f, node)
                    todo.append(g)
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            out.append(f)
            s = seen[f]
            f = s[0] if s else None
        return [x.qual for x in reversed(out)]
