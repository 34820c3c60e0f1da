"""Path-enumerating abstract interpreter over the syntax tree.

Nothing of the analysed program is executed.  Values are provenance terms
(nested tuples that say where a value comes from), paths carry the conditions
they assume and the ordered effects they have.  Calls to repository functions
are expanded in place unless the rule lists them as opaque; loops are
summarised by their generic iteration; handlers, finally blocks and context
managers are followed for explicit and (on request) implicit exceptions.

Anything the interpreter does not understand marks the path as imprecise; a
rule never reports a violation on the strength of an imprecise path.
"""
from __future__ import annotations
import ast
import builtins
from .project import Project, FuncInfo, ClassInfo, Mod, AnalysisBroken

MAX_PATHS = 6000
MAX_DEPTH = 24
MAX_STEPS = 1500000


class TooManyPaths(Exception):
    pass


# --------------------------------------------------------------------- terms
def C(v):
    return ("c", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_c(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "c"


def cval(t):
    return t[2]


_ABBR = {}


def tstr(t, depth=0):
    """Readable form of a term."""
    if depth > 7:
        return "…"
    d = depth + 1
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == "c":
        return repr(t[2])
    if _ABBR and depth and t in _ABBR:
        return _ABBR[t]
    if k in ("sym", "ext", "mod", "cls"):
        return str(t[1])
    if k == "fn":
        return t[1].split(":")[-1]
    if k == "gvar":
        return f"{t[2]}"
    if k == "attr":
        return f"{tstr(t[1], d)}.{t[2]}"
    if k == "item":
        return f"{tstr(t[1], d)}[{tstr(t[2], d)}]"
    if k == "call":
        a = [tstr(x, d) for x in t[2]] + [f"{n}={tstr(v, d)}" for n, v in t[3]]
        n = f"#{t[4]}" if t[4] else ""
        return f"{tstr(t[1], d)}({', '.join(a)}){n}"
    if k == "prop":
        return f"prop:{t[1]}"
    if k == "new":
        return f"new {t[1]}#{t[2]}"
    if k in ("list", "tuple", "set", "dict"):
        return f"{k}<{', '.join(tstr(x, d) for x in t[1])}>"
    if k == "one":
        return tstr(t[1], d)
    if k == "each":
        cs = " and ".join(("" if b else "not ") + tstr(c, d) for c, b in t[3])
        return f"{tstr(t[1], d)} for {tstr(t[2], d)}" + (f" if {cs}" if cs else "")
    if k == "kv":
        return f"{tstr(t[1], d)}: {tstr(t[2], d)}"
    if k == "*":
        return f"*{tstr(t[1], d)}"
    if k == "**":
        return f"**{tstr(t[1], d)}"
    if k == "cat":
        return "cat(" + ", ".join(tstr(x, d) for x in t[1]) + ")"
    if k == "op":
        return f"({tstr(t[2], d)} {t[1]} {tstr(t[3], d) if len(t) > 3 else ''})"
    if k in ("eq", "is", "lt", "in"):
        return f"{tstr(t[1], d)} {k} {tstr(t[2], d)}"
    if k == "elem":
        return f"∈{tstr(t[1], d)}"
    if k == "phi":
        return "phi{" + ", ".join(sorted(tstr(x, d) for x in t[1])) + "}"
    if not isinstance(k, str):
        return "(" + ", ".join(tstr(x, d) for x in t) + ")"
    return k + "(" + ", ".join(tstr(x, d) for x in t[1:]) + ")"


def subterms(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from subterms(x)


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def cat(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == "cat":
            ps = p[1]
        else:
            ps = (p,)
        for q in ps:
            if is_c(q) and isinstance(q[2], str):
                if q[2] == "":
                    continue
                if out and is_c(out[-1]):
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and is_c(out[0]):
        return out[0]
    return ("cat", tuple(out))


def _rename(t, ren):
    if not isinstance(t, tuple):
        return t
    if t in ren:
        return ren[t]
    return tuple(_rename(x, ren) for x in t)


def _subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            yield from _subterms(x)


ORDER_WRAPPERS = {"list", "tuple", "iter", "sorted", "reversed", "set",
                  "frozenset", "copy.copy", "copy.deepcopy", "tqdm"}


class Ev:
    __slots__ = ("kind", "name", "recv", "args", "res", "loc", "fn", "loops",
                 "x", "prot")

    def __init__(self, kind, name, recv, args, res, loc, fn, loops, prot=0, x=None):
        self.kind, self.name, self.recv, self.args = kind, name, recv, args
        self.res, self.loc, self.fn, self.loops = res, loc, fn, loops
        self.prot, self.x = prot, x

    def arg(self, key, default=None):
        return self.args.get(key, default)

    def __repr__(self):
        a = ", ".join(f"{k}={tstr(v, 1)}" if not isinstance(v, list) else f"{k}=[..]"
                      for k, v in (self.args or {}).items())
        r = f"{tstr(self.recv, 1)} . " if self.recv is not None else ""
        lp = f" loops={self.loops}" if self.loops else ""
        return f"{self.kind}:{r}{self.name}({a}) @{self.loc.split('/')[-1]}{lp}"


class Cell:
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts=()):
        self.kind, self.parts = kind, tuple(parts)


TYPING = set()          # loop values whose type is being found


class State:
    __slots__ = ("env", "heap", "cells", "guards", "events", "occ", "vers",
                 "excs", "loops", "imprecise", "prot", "hprot", "types")

    def __init__(self):
        self.env, self.heap, self.cells = {}, {}, {}
        self.guards, self.events = [], []
        self.occ, self.vers, self.excs = {}, {}, ()
        self.loops, self.imprecise = (), ()
        self.prot = self.hprot = 0
        self.types = {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.cells = dict(self.env), dict(self.heap), dict(self.cells)
        s.guards, s.events = list(self.guards), list(self.events)
        s.occ, s.vers, s.excs = dict(self.occ), dict(self.vers), self.excs
        s.loops, s.imprecise = self.loops, self.imprecise
        s.prot, s.hprot = self.prot, self.hprot
        s.types = dict(self.types)
        return s

    def imp(self, why):
        if why not in self.imprecise:
            self.imprecise = self.imprecise + (why,)


class Path:
    """One complete path through an entry function."""
    raw = None          # the returned object, not a snapshot of its contents

    def __init__(self, st, kind, value):
        self.st, self.kind, self.value = st, kind, value
        self.events, self.guards = st.events, st.guards
        self.imprecise = st.imprecise

    def holds(self, pred):
        """Truth value assumed for the first guard matching pred, or None."""
        for c, b, _ in self.guards:
            if pred(c):
                return b
        return None

    def show(self):
        out = []
        _ABBR.clear()
        gi = list(self.guards)
        for i, e in enumerate(self.events):
            for g in [g for g in gi if g[2] == i]:
                out.append(f"    [{'' if g[1] else 'not '}{tstr(g[0], 1)}]")
            out.append(f"    {e!r}" + (" FAILED" if (e.x or {}).get("failed") else ""))
            if e.res is not None and e.kind in ("call", "getitem") and e.res not in _ABBR:
                _ABBR[e.res] = f"%{len(_ABBR) + 1}"
                out[-1] += " -> " + _ABBR[e.res]
            if e.kind == "loop":
                for k, evs, gs in e.x["iters"]:
                    out.append(f"        iter[{k}] " + "; ".join(
                        ("" if b else "not ") + tstr(c) for c, b in gs))
                    for e2 in evs:
                        out.append(f"            {e2!r}")
        for g in gi:
            if g[2] >= len(self.events):
                out.append(f"    [{'' if g[1] else 'not '}{tstr(g[0], 1)}]")
        out.insert(0, f"--- {self.kind} {tstr(self.value, 1) if self.value is not None else ''}"
                   + (f"  IMPRECISE {self.imprecise}" if self.imprecise else ""))
        _ABBR.clear()
        return "\n".join(out)


def flat_events(events, into_loops=True):
    """All events including those inside loop summaries (in order)."""
    for e in events:
        yield e
        if into_loops and e.kind == "loop":
            for _, evs, _ in e.x["iters"]:
                yield from flat_events(evs)


# exceptions -----------------------------------------------------------------
_EXC_PARENT = {
    "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "AssertionError": "Exception",
    "AttributeError": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "NameError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "OSError": "Exception", "FileNotFoundError": "OSError",
    "TimeoutError": "OSError", "PermissionError": "OSError",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "StopIteration": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "BaseException": None,
    "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException",
}


def builtin_exception(name):
    k = getattr(builtins, name, None) if isinstance(name, str) else None
    return isinstance(k, type) and issubclass(k, BaseException)


class Policy:
    """What a rule wants expanded, followed, or kept opaque."""
    def __init__(self, opaque=(), inline=(), default="private", exc="handlers",
                 volatile=(), stable=(), facts=None, max_paths=MAX_PATHS,
                 base_exc=False, extra_types=None, opaque_fn=None, raises=None):
        self.opaque, self.inline = set(opaque), set(inline)
        self.default = default      # private | all | none
        self.exc = exc              # none | handlers | protected | all
        self.volatile, self.stable = set(volatile), set(stable)
        self.facts, self.max_paths, self.base_exc = facts, max_paths, base_exc
        self.opaque_fn = opaque_fn
        self.raises = raises        # predicate: may this event raise?


# Public functions of the pinned tree.  In the default policy exactly these are
# kept opaque; anything else (private helpers, functions added later) is
# expanded in place, so that extracting a helper does not change the analysis.
PURE_EXT = {
    "len", "isinstance", "issubclass", "type", "str", "int", "bool", "float",
    "repr", "id", "hash", "sorted", "reversed", "tuple", "frozenset", "min",
    "max", "sum", "abs", "callable", "enumerate", "zip", "range", "iter", "set",
    "list", "dict", "dir", "format", "ord", "chr", "hex", "divmod", "round", "map",
    "filter", "any", "all", "vars", "hasattr", "getattr", "super", "object", "slice",
    "copy.copy", "copy.deepcopy", "print", "os.path.join",
}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Interp:
    def __init__(self, project: Project, policy: Policy):
        self.P, self.pol = project, policy
        self.n_cell = 0
        self.n_loop = 0
        self.loop_elems = {}
        self.n_clo = 0
        self.closures = {}
        self.mus = {}
        self.prepended = set()
        self.steps = 0
        self.stack = []          # FuncInfo being expanded
        self.exact = {}          # term -> exact ClassInfo
        self.types = {}          # term -> type descriptor
        self.inlined = set()     # fq of functions expanded
        self.opaqued = set()
        self.npaths = 0
        self._wr_cache = {}

    # ------------------------------------------------------------ entry
    def run(self, func: FuncInfo, cls: ClassInfo | None = None, params=None,
            self_term=None, ptypes=None, setup=None):
        """All paths of func, its parameters symbolic (or given)."""
        st = State()
        pos, kwo, va, kw = func.params()
        params = dict(params or {})
        bound = None
        names = list(pos)
        if func.kind in ("method", "property") or (
                func.cls is not None and func.kind == "static"
                and func.name == "__new__"):
            bound = names[0]
            c = cls or func.cls
            if func.name == "__new__":
                st.env[bound] = ("cls", c.name)
            else:
                t = self_term or ("sym", "self")
                st.env[bound] = t
                self.exact[t] = c
                self.types[t] = ("cls", c)
            names = names[1:]
        elif func.kind == "class":
            c = cls or func.cls
            st.env[names[0]] = ("cls", c.name)
            names = names[1:]
        for n in names + kwo:
            if n in params:
                st.env[n] = params[n]
            else:
                t = ("sym", n)
                st.env[n] = t
                ty = self._ann_type(func, self._param_ann(func, n))
                if ptypes and n in ptypes:
                    ty = ptypes[n]
                if ty is not None:
                    self.types[t] = ty
        if va:
            st.env[va] = params.get(va, ("sym", va))
        if kw:
            st.env[kw] = params.get(kw, ("sym", kw))
            self.types.setdefault(st.env[kw], ("kwargs",))
        if setup:
            setup(self, st)
        self.stack = [func]
        out = []
        for s, sig in self.block(func.node.body, [st], func):
            if sig is None:
                out.append(Path(s, "return", NONE))
            elif sig[0] == "return":
                out.append(Path(s, "return", self.snap(sig[1], s)))
                out[-1].raw = sig[1]
            elif sig[0] == "raise":
                out.append(Path(s, "raise", sig[1]))
            else:
                out.append(Path(s, sig[0], None))
        self.stack = []
        if len(out) > self.pol.max_paths:
            raise TooManyPaths(func.fq)
        return out

    # ------------------------------------------------------------ types
    def _param_ann(self, func, name):
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    def _ann_type(self, func, ann):
        return self._ann(func.mod if isinstance(func, FuncInfo) else func, ann)

    def _ann(self, mod, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self._ann(mod, ast.parse(ann.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.P.resolve_expr(mod, ann)
            if r and r[0] == "class":
                return ("cls", r[1])
            if r and r[0] == "var" and r[3] is not None:
                return self._ann(r[1], r[3])
            if isinstance(ann, ast.Name) and ann.id in ("str", "int", "bool", "float",
                                                        "dict", "list", "set", "tuple", "type"):
                return ("py", ann.id)
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, b = self._ann(mod, ann.left), self._ann(mod, ann.right)
            for x in (a, b):
                if x and x[0] == "cls":
                    return x
            return a or b
        if isinstance(ann, ast.Subscript):
            n = ann.value
            nm = n.id if isinstance(n, ast.Name) else getattr(n, "attr", "")
            sl = ann.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if nm in ("Optional", "Union"):
                ts = [self._ann(mod, e) for e in elts]
                for x in ts:
                    if x and x[0] == "cls":
                        return x
                return next((t for t in ts if t), None)
            if nm in ("list", "List", "Iterable", "Sequence", "Set", "set"):
                return ("listof", self._ann(mod, elts[0]))
            if nm in ("dict", "Dict") and len(elts) == 2:
                return ("dictof", self._ann(mod, elts[0]), self._ann(mod, elts[1]))
        return None

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t[0] == "mu":
            if t in TYPING:        # defined through itself
                return None
            TYPING.add(t)
            try:
                r = self._typeof(t)
            finally:
                TYPING.discard(t)
        else:
            r = self._typeof(t)
        if r is not None:
            self.types[t] = r
        return r

    def _typeof(self, t):
        k = t[0]
        if k == "c":
            return ("py", t[1])
        if k == "attr":
            bt = self.typeof(t[1])
            if bt and bt[0] == "cls":
                return self._attr_type(bt[1], t[2])
            if t[1][0] == "cls":
                c = self._cls(t[1])
                if c:
                    return self._attr_type(c, t[2])
        elif k == "item":
            bt = self.typeof(t[1])
            if bt and bt[0] == "dictof":
                return bt[2]
            if bt and bt[0] == "listof":
                return bt[1]
        elif k == "elem":
            bt = self.typeof(t[1])
            if bt and bt[0] in ("listof",):
                return bt[1]
            if bt and bt[0] == "dictof":
                return bt[1]
        elif k == "new":
            c = self._clsname(t[1])
            return ("cls", c) if c else None
        elif k == "cat":
            return ("py", "str")
        elif k in ("list", "dict", "set", "tuple"):
            return ("py", k)
        elif k == "call":
            f = t[1]
            if f[0] == "cls":
                c = self._cls(f)
                if c:
                    return ("cls", c)
            if f[0] == "fn":
                fi = self._fn_by_term(f)
                if fi is not None:
                    return self._ann_type(fi, fi.node.returns)
            if f[0] == "prop":
                fi = self.P.funcs.get(f[2])
                if fi is not None:
                    return self._ann_type(fi, fi.node.returns)
            if f == ("ext", "str"):
                return ("py", "str")
            if f[0] == "ext" and f[1] in ("copy.copy", "copy.deepcopy") and t[2]:
                return self.typeof(t[2][0])
            if f[0] == "ext" and f[1] in ("list", "sorted", "set", "tuple") and t[2]:
                bt = self.typeof(t[2][0])
                if bt and bt[0] == "listof":
                    return bt
        elif k == "phi":
            ts = [self.typeof(x) for x in t[1]]
            ts = [x for x in ts if x]
            if ts and all(x == ts[0] for x in ts):
                return ts[0]
        elif k == "mu":
            for v in self.mus.get(t, ()):
                if v != t and v[0] != "mu":
                    r = self.typeof(v)
                    if r:
                        return r
        return None

    def _attr_type(self, c, name):
        for k in c.mro:
            if not isinstance(k, ClassInfo):
                continue
            f = k.methods.get(name)
            if f is not None:
                if f.kind == "property":
                    return self._ann_type(f, f.node.returns)
                return None
            if name in k.annots:
                return self._ann(k.mod, k.annots[name])
        # self.x = param with annotation in __init__
        return None

    def _cls(self, t):
        return self._clsname(t[1])

    def _clsname(self, n):
        return self.P.class_by_name(n)

    def _fn_by_term(self, f):
        return self.P.funcs.get(f[1])

    def fterm(self, fi):
        return ("fn", fi.fq)

    # ------------------------------------------------------------ helpers
    def new_cell(self, st, kind, parts=()):
        self.n_cell += 1
        r = ("ref", self.n_cell)
        st.cells[r] = Cell(kind, parts)
        return r

    def snap(self, t, st, depth=0):
        """Term with the current content of mutable literals filled in."""
        if not isinstance(t, tuple) or depth > 25:
            return t
        if t and t[0] == "ref":
            c = st.cells.get(t)
            if c is None:
                return t
            return (c.kind, tuple(self.snap(p, st, depth + 1) for p in c.parts))
        if t and t[0] == "closure":
            return t
        if not any(isinstance(x, tuple) for x in t):
            return t
        return tuple(self.snap(x, st, depth + 1) if isinstance(x, tuple) else x
                     for x in t)

    def loc(self, func, node):
        return f"{func.mod.rel}:{getattr(node, 'lineno', 0)}"

    def emit(self, st, kind, name, recv, args, res, func, node, x=None):
        e = Ev(kind, name, recv, args, res, self.loc(func, node), func.qual,
               st.loops, st.prot, x)
        st.events.append(e)
        return e

    def ver(self, st, t):
        return st.vers.get(t, 0)

    def bump(self, st, t):
        st.vers[t] = st.vers.get(t, 0) + 1

    def implicit(self, st, func, node, ev):
        """States in which the event just emitted raised (if followed)."""
        e = self.pol.exc
        if e == "none" or (e == "handlers" and not st.hprot) or (
                e == "protected" and not st.prot):
            return []
        if ev.kind == "call" and ev.recv is None and builtin_exception(ev.name):
            return []                   # making an exception does not fail
        if self.pol.raises is not None and not self.pol.raises(ev):
            return []
        s = st.copy()
        out = [(s, None, ("exc", None, ("from", ev.name, ev.loc)))]
        for n in ("KeyboardInterrupt", "SystemExit") if self.pol.base_exc else ():
            s2 = st.copy()
            out.append((s2, None, ("exc", n, ("from", ev.name, ev.loc))))
        # the failing event did not complete
        for s_, _, _ in out:
            last = s_.events[-1]
            s_.events[-1] = Ev(last.kind, last.name, last.recv, last.args, last.res,
                               last.loc, last.fn, last.loops, last.prot,
                               {**(last.x or {}), "failed": True})
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, func):
        """-> list of (state, signal)."""
        live, done = list(states), []
        for s in stmts:
            nxt = []
            for st in live:
                for st2, sig in self.stmt(s, st, func):
                    if sig is None:
                        nxt.append(st2)
                    else:
                        done.append((st2, sig))
            live = nxt
            if len(live) + len(done) > self.pol.max_paths:
                raise TooManyPaths(func.fq)
            if not live:
                break
        return done + [(st, None) for st in live]

    def stmt(self, s, st, func):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooManyPaths(func.fq + " (steps)")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            st.imp(f"statement {type(s).__name__} at {self.loc(func, s)}")
            return [(st, None)]
        return m(s, st, func)

    def s_Pass(self, s, st, func):
        return [(st, None)]
    s_Import = s_ImportFrom = None

    def s_Import(self, s, st, func):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = ("mod", a.name)
            else:
                st.env[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        return [(st, None)]

    def s_ImportFrom(self, s, st, func):
        base = self.P._from_base(func.mod, s)
        for a in s.names:
            if a.name == "*":
                continue
            r = self.P._resolve_from(base, a.name, set())
            st.env[a.asname or a.name] = self._binding(r, a.name)
        return [(st, None)]

    def s_Global(self, s, st, func):
        for n in s.names:
            st.env[n] = ("globaldecl", n)
        return [(st, None)]

    def s_Nonlocal(self, s, st, func):
        return [(st, None)]

    def s_Expr(self, s, st, func):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(a, ("raise", x) if x else None)
                for a, _, x in self.ev(s.value, st, func)]

    def s_Return(self, s, st, func):
        if s.value is None:
            return [(st, ("return", NONE))]
        return [(a, ("raise", x) if x else ("return", v))
                for a, v, x in self.ev(s.value, st, func)]

    def s_Break(self, s, st, func):
        return [(st, ("break",))]

    def s_Continue(self, s, st, func):
        return [(st, ("continue",))]

    def s_Assign(self, s, st, func):
        out = []
        for a, v, x in self.ev(s.value, st, func):
            if x:
                out.append((a, ("raise", x)))
                continue
            cur = [(a, None)]
            for t in s.targets:
                nxt = []
                for b, sig in cur:
                    if sig:
                        nxt.append((b, sig))
                    else:
                        nxt += self.assign(t, v, b, func)
                cur = nxt
            out += cur
        return out

    def s_AnnAssign(self, s, st, func):
        if s.value is None:
            return [(st, None)]
        out = []
        for a, v, x in self.ev(s.value, st, func):
            if x:
                out.append((a, ("raise", x)))
            else:
                ty = self._ann_type(func, s.annotation)
                if ty and v not in self.types:
                    self.types[v] = ty
                out += self.assign(s.target, v, a, func)
        return out

    def s_AugAssign(self, s, st, func):
        load = _as_load(s.target)
        out = []
        opn = _OPS.get(type(s.op), "?")
        for a, cur, x in self.ev(load, st, func):
            if x:
                out.append((a, ("raise", x)))
                continue
            for b, v, x2 in self.ev(s.value, a, func):
                if x2:
                    out.append((b, ("raise", x2)))
                    continue
                if cur[0] == "ref":
                    c = b.cells[cur]
                    if c.kind == "list" and opn == "+":
                        b.cells[cur] = Cell("list", c.parts + self.iter_parts(v, b))
                        out.append((b, None))
                        continue
                    if c.kind == "set" and opn == "|":
                        b.cells[cur] = Cell("set", c.parts + self.iter_parts(v, b))
                        out.append((b, None))
                        continue
                    if c.kind == "dict" and opn == "|":
                        self.dict_update(b, cur, v)
                        out.append((b, None))
                        continue
                self.emit(b, "inplace", opn, None,
                          {"target": self.snap(cur, b), "value": self.snap(v, b)},
                          None, func, s)
                nv = self.binop(opn, cur, v, b)
                out += self.assign(s.target, nv, b, func)
        return out

    def s_Delete(self, s, st, func):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for a, sig in cur:
                if sig:
                    nxt.append((a, sig))
                    continue
                if isinstance(t, ast.Name):
                    a.env.pop(t.id, None)
                    nxt.append((a, None))
                elif isinstance(t, ast.Attribute):
                    for b, base, x in self.ev(t.value, a, func):
                        if x:
                            nxt.append((b, ("raise", x)))
                            continue
                        b.heap[(base, t.attr)] = ("deleted",)
                        e = self.emit(b, "delattr", t.attr, self.snap(base, b), {}, None, func, t)
                        nxt.append((b, None))
                elif isinstance(t, ast.Subscript):
                    for b, base, x in self.ev(t.value, a, func):
                        if x:
                            nxt.append((b, ("raise", x)))
                            continue
                        for c, k, x2 in self.ev(t.slice, b, func):
                            if x2:
                                nxt.append((c, ("raise", x2)))
                                continue
                            if base[0] == "ref":
                                cell = c.cells[base]
                                ks = self.snap(k, c)
                                if cell.kind == "dict":
                                    ps = tuple(p for p in cell.parts if not (
                                        p[0] == "kv" and self.snap(p[1], c) == ks))
                                    if len(ps) == len(cell.parts):
                                        ps = ps + (("del", ks),)
                                    c.cells[base] = Cell("dict", ps)
                                else:
                                    c.cells[base] = Cell(cell.kind, cell.parts + (("unknown",),))
                                nxt.append((c, None))
                                continue
                            bs = self.snap(base, c)
                            ev = self.emit(c, "delitem", "del", bs,
                                           {"key": self.snap(k, c)}, None, func, t)
                            self.bump(c, bs)
                            nxt += [(q, ("raise", y)) for q, _, y in
                                    self.implicit(c, func, t, ev)]
                            nxt.append((c, None))
                else:
                    a.imp("del target")
                    nxt.append((a, None))
            cur = nxt
        return cur

    def s_Raise(self, s, st, func):
        if s.exc is None:
            x = st.excs[-1] if st.excs else ("exc", None, ("ambient",))
            self.emit(st, "raise", "reraise", None, {"exc": x}, None, func, s)
            return [(st, ("raise", x))]
        out = []
        for a, v, x in self.ev(s.exc, st, func):
            if x:
                out.append((a, ("raise", x)))
                continue
            if v[0] == "exc":
                e = v
            else:
                e = ("exc", self._exc_name(v), self.snap(v, a))
            self.emit(a, "raise", "raise", None, {"exc": e}, None, func, s)
            out.append((a, ("raise", e)))
        return out

    def _exc_name(self, v):
        if v[0] == "call":
            v = v[1]
        if v[0] == "ext":
            return v[1].split(".")[-1]
        if v[0] == "cls":
            return v[1]
        if v[0] == "new":
            return v[1]
        return None

    def s_Assert(self, s, st, func):
        out = []
        for a, b, x in self.cond(s.test, st, func):
            if x:
                out.append((a, ("raise", x)))
            elif b:
                out.append((a, None))
            else:
                if s.msg is not None and False:
                    pass
                e = ("exc", "AssertionError", ("assert", self.loc(func, s)))
                self.emit(a, "raise", "assert", None, {"exc": e}, None, func, s)
                out.append((a, ("raise", e)))
        return out

    def s_If(self, s, st, func):
        out = []
        for a, b, x in self.cond(s.test, st, func):
            if x:
                out.append((a, ("raise", x)))
            else:
                out += self.block(s.body if b else s.orelse, [a], func)
        return out

    def s_FunctionDef(self, s, st, func):
        st.env[s.name] = self.closure(s, st, func)
        if s.decorator_list:
            st.imp(f"decorated nested function at {self.loc(func, s)}")
        return [(st, None)]

    def s_AsyncFunctionDef(self, s, st, func):
        st.imp("async def")
        return [(st, None)]

    def s_ClassDef(self, s, st, func):
        st.env[s.name] = ("localcls", s.name, self.loc(func, s))
        return [(st, None)]

    def closure(self, node, st, func):
        self.n_clo += 1
        t = ("closure", self.n_clo)
        self.closures[t] = (node, st.env, func)
        return t

    # ---------------------------------------------------------------- try
    def s_Try(self, s, st, func):
        has_fin = bool(s.finalbody)
        st.prot += 1
        if s.handlers:
            st.hprot += 1
        elif has_fin and self.pol.exc in ("handlers",):
            pass
        res = self.block(s.body, [st], func)
        out = []
        for a, sig in res:
            a.prot -= 1
            if s.handlers:
                a.hprot -= 1
            if has_fin:
                a.prot += 1
            if sig is None:
                out += self.block(s.orelse, [a], func) if s.orelse else [(a, None)]
            elif sig[0] == "raise" and s.handlers:
                out += self.handlers(s.handlers, a, sig[1], func)
            else:
                out.append((a, sig))
        if has_fin:
            fin = []
            for a, sig in out:
                a.prot -= 1
                if sig and sig[0] == "raise":
                    a.excs = a.excs + (sig[1],)
                for b, sig2 in self.block(s.finalbody, [a], func):
                    if sig and sig[0] == "raise":
                        b.excs = b.excs[:-1]
                    fin.append((b, sig2 if sig2 is not None else sig))
            out = fin
        return out
    s_TryStar = s_Try

    def handlers(self, hs, st, exc, func):
        out = []
        rest = [st]
        for h in hs:
            nrest = []
            for a in rest:
                m = self.matches(h, exc, a, func)
                if m in (True, None):
                    b = a.copy() if m is None else a
                    if m is None and h.type is not None:
                        pass
                    b.excs = b.excs + (exc,)
                    if h.name:
                        b.env[h.name] = exc
                    self.emit(b, "except", "except", None, {"exc": exc}, None, func, h,
                              x={"type": ast.dump(h.type) if h.type is not None else None})
                    for c, sig in self.block(h.body, [b], func):
                        c.excs = c.excs[:-1]
                        if h.name:
                            c.env.pop(h.name, None)
                        out.append((c, sig))
                if m in (False, None):
                    nrest.append(a)
            rest = nrest
        out += [(a, ("raise", exc)) for a in rest]
        return out

    def matches(self, h, exc, st, func):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in types]
        if "BaseException" in names:
            return True
        n = exc[1]
        if n is None:
            return True if "Exception" in names else None
        k, seen = n, 0
        while k is not None and seen < 10:
            if k in names:
                return True
            if k not in _EXC_PARENT:
                c = self.P.class_by_name(k)
                if c is not None:
                    eb = [b for b in c.ext_bases()]
                    k = eb[0] if eb else None
                    continue
                return True if "Exception" in names else None
            k = _EXC_PARENT.get(k)
            seen += 1
        return False

    # ---------------------------------------------------------------- with
    def s_With(self, s, st, func):
        return self._with(s.items, s.body, st, func)

    def _with(self, items, body, st, func):
        if not items:
            return self.block(body, [st], func)
        it, rest = items[0], items[1:]
        out = []
        for a, ctx, x in self.ev(it.context_expr, st, func):
            if x:
                out.append((a, ("raise", x)))
                continue
            ent = self.call_method(ctx, "__enter__", [], [], a, func, it.context_expr,
                                   evkind="with_enter")
            for b, v, x2 in ent:
                if x2:
                    out.append((b, ("raise", x2)))
                    continue
                if it.optional_vars is not None:
                    pre = self.assign(it.optional_vars, v, b, func)
                else:
                    pre = [(b, None)]
                for c, sig0 in pre:
                    if sig0 is not None:
                        out.append((c, sig0))
                        continue
                    c.prot += 1
                    for d, sig in self._with(rest, body, c, func):
                        d.prot -= 1
                        out += self._with_exit(ctx, d, sig, func, it.context_expr)
        return out

    def _with_exit(self, ctx, st, sig, func, node):
        if sig and sig[0] == "raise":
            exc = sig[1]
            args = [("exctype", exc), exc, ("exctb", exc)]
            st.excs = st.excs + (exc,)
        else:
            exc = None
            args = [NONE, NONE, NONE]
        out = []
        for a, v, x in self.call_method(ctx, "__exit__", args, [], st, func, node,
                                        evkind="with_exit", exc=exc):
            if exc is not None:
                a.excs = a.excs[:-1]
            if x:
                out.append((a, ("raise", x)))
                continue
            if exc is None:
                out.append((a, sig))
                continue
            # does __exit__ swallow?
            if v is None or v[0] == "opaque_exit" or v == NONE or v == FALSE:
                out.append((a, sig))
                continue
            for b, t in self.truth(v, a):
                out.append((b, None if t else sig))
        return out

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, func):
        out = []
        for a, it, x in self.ev(s.iter, st, func):
            if x:
                out.append((a, ("raise", x)))
                continue
            while it[0] == "call" and it[1][0] == "ext" and it[1][1] in ("list", "tuple", "iter") \
                    and len(it[2]) == 1 and not it[3]:
                it = it[2][0]
            lit = self.literal_elems(it, a)
            if lit is not None and len(lit) <= 12:
                out += self._unrolled(s, a, lit, func)
                continue
            alts = self.fresh(it, self.elem_alternatives(it, a), a)
            out += self._loop(s, a, func, alts, it)
        return out
    s_AsyncFor = s_For

    def _unrolled(self, s, st, elems, func):
        live, done, broke = [st], [], []
        for e in elems:
            nxt = []
            for a in live:
                for b, sig in self.assign(s.target, e, a, func):
                    if sig:
                        done.append((b, sig))
                        continue
                    for c, sig2 in self.block(s.body, [b], func):
                        if sig2 is None or sig2[0] == "continue":
                            nxt.append(c)
                        elif sig2[0] == "break":
                            broke.append(c)
                        else:
                            done.append((c, sig2))
            live = nxt
        if s.orelse:
            done += self.block(s.orelse, live, func)
        else:
            done += [(a, None) for a in live]
        return done + [(a, None) for a in broke]

    def s_While(self, s, st, func):
        return self._loop(s, st, func, None, None)

    def _loop(self, s, st, func, alts, it):
        self.n_loop += 1
        lid = self.n_loop
        is_for = alts is not None
        itsnap = self.snap(it, st) if it is not None else None

        def iterate(head):
            """One generic iteration from a head state.
            -> backedges, exits(return/raise/break)"""
            back, exits = [], []
            starts = []
            if is_for:
                for el, conds in alts:
                    h = head.copy()
                    ok = True
                    for c, b in conds:
                        if not self.assume(h, c, b):
                            ok = False
                    if not ok:
                        continue
                    for a, sig in self.assign(s.target, el, h, func):
                        if sig:
                            exits.append((a, sig))
                        else:
                            starts.append(a)
            else:
                for a, b, x in self.cond(s.test, head.copy(), func):
                    if x:
                        exits.append((a, ("raise", x)))
                    elif b:
                        starts.append(a)
            for a in starts:
                for b, sig in self.block(s.body, [a], func):
                    if sig is None or sig[0] == "continue":
                        back.append(b)
                    else:
                        exits.append((b, sig))
            return back, exits

        st.loops = st.loops + (lid,)
        if is_for:
            self.loop_elems[lid] = {x for el, _ in alts for x in _subterms(el) if x[0] == "elem"}
        ne, ng = len(st.events), len(st.guards)
        # pass 1: find what changes
        back, _ = iterate(st.copy())
        head = st.copy()
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if is_for else set()
        changed = set()
        for b in back:
            for k, v in b.env.items():
                if k in head.env and head.env[k] != v and k not in tgt:
                    changed.add(("env", k))
            for k, v in b.heap.items():
                if head.heap.get(k) != v:
                    changed.add(("heap", k))
        for kind, k in changed:
            mu = ("mu", lid, k if kind == "env" else k[1])
            d = head.env if kind == "env" else head.heap
            init = d.get(k)
            if init is None and kind == "heap":
                init = ("attr",) + k
            self.mus[mu] = {self.snap(init, st) if init is not None else init}
            d[k] = mu
        def grow(base):
            """What the cells hold after any number of iterations, given one."""
            res = {}
            for r, c in st.cells.items():
                b0 = base[r].parts
                n0 = len(b0)
                parts = list(c.parts)
                for b in back:
                    cb = b.cells.get(r)
                    if cb is None or cb.parts == b0:
                        continue
                    if cb.parts[:n0] == b0:
                        gs = tuple((g[0], g[1]) for g in b.guards[ng:])
                        for p in cb.parts[n0:]:
                            p = self.snap(p, b)
                            if p[0] == "one":
                                q = ("each", p[1], itsnap if itsnap is not None else ("while", lid), gs)
                            elif p[0] == "kv":
                                q = ("kveach", p[1], p[2], itsnap if itsnap is not None else ("while", lid), gs)
                            else:
                                q = p
                            if q not in parts:
                                parts.append(q)
                    else:
                        parts = [("unknown",)]
                if parts and not base[r].parts and r in self.prepended and parts != [("unknown",)]:
                    parts = [("*", ("call", ("ext", "reversed"), (("list", tuple(parts)),), (), 0))]
                res[r] = parts
            return res

        newcells = grow(st.cells)
        for r, p in newcells.items():
            if tuple(p) != head.cells[r].parts:
                head.cells[r] = Cell(head.cells[r].kind, p)
        for b in back:
            for k, v in b.vers.items():
                if v > head.vers.get(k, 0):
                    head.vers[k] = v
        # pass 2
        if changed or any(tuple(p) != st.cells[r].parts for r, p in newcells.items()):
            back, exits = iterate(head.copy())
            for kind, k in changed:
                mu = ("mu", lid, k if kind == "env" else k[1])
                for b in back:
                    v = (b.env if kind == "env" else b.heap).get(k)
                    if v is not None:
                        self.mus[mu].add(self.snap(v, b))
            # conditions on what the loop itself builds show in the second pass only
            for r, p in grow(head.cells).items():
                if len(p) > len(st.cells[r].parts) and head.cells[r].parts != ("unknown",) \
                        and tuple(p) != head.cells[r].parts and ("unknown",) not in p:
                    head.cells[r] = Cell(head.cells[r].kind, p)
        else:
            back, exits = iterate(head.copy())
        iters, nexts = [], []
        for b in back:
            nx = {}
            for kind, k in changed:
                v = (b.env if kind == "env" else b.heap).get(k)
                if v is not None:
                    nx[("mu", lid, k if kind == "env" else k[1])] = self.snap(v, b)
            nexts.append(nx)
            iters.append(("next", b.events[ne:], [(g[0], g[1]) for g in b.guards[ng:]]))
        for b, sig in exits:
            iters.append((sig[0], b.events[ne:], [(g[0], g[1]) for g in b.guards[ng:]]))
        x = {"iters": iters, "iter": itsnap, "id": lid, "next": nexts}
        imp = ()
        for b in back:
            for w in b.imprecise:
                if w not in imp:
                    imp += (w,)
        out = []
        # exhausted
        ends = []
        if is_for:
            e = head.copy()
            ends = [e]
            rec = Ev("loop", "for", itsnap, {}, None, self.loc(func, s), func.qual,
                     st.loops[:-1], st.prot, x)
            e.events.append(rec)
        else:
            pre = head.copy()
            rec = Ev("loop", "while", None, {}, None, self.loc(func, s), func.qual,
                     st.loops[:-1], st.prot, x)
            pre.events.append(rec)
            for a, b, xx in self.cond(s.test, pre, func):
                if not xx and not b:
                    ends.append(a)
        for e in ends:
            e.loops = e.loops[:-1]
            for w in imp:
                e.imp(w)
            out += self.block(s.orelse, [e], func) if s.orelse else [(e, None)]
        # leaving from inside
        for b, sig in exits:
            rec2 = Ev("loop", "for" if is_for else "while", itsnap, {}, None,
                      self.loc(func, s), func.qual, st.loops[:-1], st.prot,
                      {**x, "partial": True, "iters": [i for i in iters if i[0] == "next"]})
            b.events.insert(ne, rec2)
            b.guards = [g if j < ng else (g[0], g[1], g[2] + 1)
                        for j, g in enumerate(b.guards)]
            b.loops = b.loops[:-1]
            for w in imp:
                b.imp(w)
            out.append((b, None if sig[0] == "break" else sig))
        return out

    def literal_elems(self, it, st):
        if it[0] == "tuple":
            return list(it[1])
        if it[0] == "ref":
            c = st.cells[it]
            if c.kind in ("list", "set") and all(p[0] == "one" for p in c.parts):
                return [p[1] for p in c.parts]
            if c.kind == "dict" and all(p[0] == "kv" for p in c.parts):
                return [p[1] for p in c.parts]
        if is_c(it) and isinstance(it[2], str):
            return None
        if it[0] == "call" and it[1] == ("ext", "enumerate"):
            sub = self.literal_elems(it[2][0], st)
            start = (list(it[2][1:]) + [v for k, v in it[3] if k == "start"] + [C(0)])[0]
            if sub is not None and is_c(start):
                return [("tuple", (C(i), x)) for i, x in enumerate(sub, start[2])]
        if it[0] == "call" and it[1][0] == "attr" and it[1][1][0] == "ref" and not it[2]:
            c = st.cells.get(it[1][1])
            if c and c.kind == "dict" and all(p[0] == "kv" for p in c.parts):
                if it[1][2] == "items":
                    return [("tuple", (p[1], p[2])) for p in c.parts]
                if it[1][2] == "values":
                    return [p[2] for p in c.parts]
                if it[1][2] == "keys":
                    return [p[1] for p in c.parts]
        return None

    def elem_alternatives(self, it, st):
        """[(generic element, conditions under which it is in)]"""
        if it[0] == "ref":
            c = st.cells[it]
            out = []
            for p in c.parts:
                if p[0] == "one":
                    out.append((p[1], ()))
                elif p[0] == "each":
                    out.append((p[1], p[3]))
                elif p[0] == "*":
                    out += self.elem_alternatives(p[1], st)
                elif p[0] == "kv":
                    out.append((p[1], ()))
                elif p[0] == "kveach":
                    out.append((p[1], p[4]))
                elif p[0] == "**":
                    out.append((self.elem(p[1], st), ()))
                else:
                    out.append((("elem", self.snap(it, st)), ()))
            return out
        if it[0] == "call" and it[1][0] == "ext" and it[1][1] in ORDER_WRAPPERS and len(it[2]) >= 1:
            return self.elem_alternatives(it[2][0], st)
        return [(self.elem(it, st), ())]

    def bases(self, it, st):
        """The generic elements an iteration over it introduces."""
        if it[0] == "ref" or it[0] in ("list", "set", "dict") and len(it) == 2:
            ps = st.cells[it].parts if it[0] == "ref" else it[1]
            for p in ps:
                if p[0] in ("each", "kveach"):
                    yield from self.bases(p[2] if p[0] == "each" else p[3], st)
                elif p[0] in ("*", "**"):
                    yield from self.bases(p[1], st)
            return
        if it[0] == "call" and it[1][0] == "ext" and it[2] and (it[1][1] in ORDER_WRAPPERS or it[1][1] in ("enumerate", "zip")):
            for x in it[2]:
                yield from self.bases(x, st)
            return
        if it[0] == "call" and it[1][0] == "attr" and not it[2] and it[1][2] in ("items", "keys", "values", "copy"):
            yield from self.bases(it[1][1], st)
            return
        yield ("elem", self.snap(it, st))

    def fresh(self, it, alts, st):
        """An iteration over a collection that is being iterated already has a
        generic element of its own."""
        act = set()
        for lid in st.loops:
            act |= self.loop_elems.get(lid, set())
        if not act:
            return alts
        ren = {b: b + (len(st.loops),) for b in self.bases(it, st) if b in act}
        if not ren:
            return alts
        return [(_rename(el, ren), tuple((_rename(c, ren), b) for c, b in conds)) for el, conds in alts]

    def elem(self, it, st):
        if it[0] == "ref":
            a = self.elem_alternatives(it, st)
            if len(a) == 1:
                return a[0][0]
            return ("elem", self.snap(it, st))
        if it[0] == "call":
            f = it[1]
            if f[0] == "ext":
                if f[1] in ORDER_WRAPPERS and it[2]:
                    return self.elem(it[2][0], st)
                if f[1] == "enumerate" and it[2]:
                    start = (list(it[2][1:]) + [v for k, v in it[3] if k == "start"] + [C(0)])[0]
                    n = ("idx", self.snap(it[2][0], st))
                    return ("tuple", (n if start == C(0) else ("op", "+", n, start), self.elem(it[2][0], st)))
                if f[1] == "zip":
                    return ("tuple", tuple(self.elem(x, st) for x in it[2]))
            if f[0] == "attr" and not it[2] and not it[3]:
                d = f[1]
                if f[2] == "items":
                    e = self.elem(d, st)
                    return ("tuple", (e, self.item(d, e, st)))
                if f[2] == "keys":
                    return self.elem(d, st)
                if f[2] == "values":
                    return self.item(d, self.elem(d, st), st)
                if f[2] in ("copy",):
                    return self.elem(d, st)
        return ("elem", self.snap(it, st))

    def item(self, base, key, st):
        if base[0] == "ref":
            c = st.cells[base]
            ks = self.snap(key, st)
            if c.kind == "dict":
                for p in reversed(c.parts):
                    if p[0] == "kv" and self.snap(p[1], st) == ks:
                        return p[2]
                    if p[0] == "kveach" and self.snap(p[1], st) == ks:
                        return p[2]
                    if p[0] in ("**", "unknown", "del"):
                        break
            elif c.kind == "list" and is_c(key) and isinstance(key[2], int):
                if all(p[0] == "one" for p in c.parts):
                    try:
                        return c.parts[key[2]][1]
                    except IndexError:
                        pass
                elif key[2] == -1 and c.parts and c.parts[-1][0] == "one":
                    return c.parts[-1][1]
            return ("item", self.snap(base, st), ks, 0)
        if base[0] == "tuple" and is_c(key) and isinstance(key[2], int):
            try:
                return base[1][key[2]]
            except IndexError:
                pass
        bs, ks = self.snap(base, st), self.snap(key, st)
        if bs == ("attr", ("mod", "sys"), "modules") and is_c(ks):
            return ("mod", ks[2])
        return ("item", bs, ks, self.ver(st, bs))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, func):
        if isinstance(t, ast.Name):
            if st.env.get(t.id, (None,))[0] == "globaldecl":
                g = ("gvar", func.mod.name, t.id)
                st.heap[("global", g)] = v
                self.emit(st, "setglobal", t.id, g, {"value": self.snap(v, st)}, None, func, t)
                return [(st, None)]
            st.env[t.id] = v
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for a, base, x in self.ev(t.value, st, func):
                if x:
                    out.append((a, ("raise", x)))
                    continue
                self.setattr(base, t.attr, v, a, func, t)
                out.append((a, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, base, x in self.ev(t.value, st, func):
                if x:
                    out.append((a, ("raise", x)))
                    continue
                for b, k, x2 in self.ev(t.slice, a, func):
                    if x2:
                        out.append((b, ("raise", x2)))
                        continue
                    out += self.setitem(base, k, v, b, func, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            vals = None
            if v[0] == "tuple":
                vals = list(v[1])
            elif v[0] == "ref":
                c = st.cells[v]
                if c.kind == "list" and all(p[0] == "one" for p in c.parts):
                    vals = [p[1] for p in c.parts]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            cur = [(st, None)]
            for i, e in enumerate(t.elts):
                if star:
                    if i == star[0]:
                        e = e.value
                        val = ("rest", self.snap(v, st), i)
                    else:
                        val = self.item(v, C(i if i < star[0] else i - n), st)
                elif vals is not None and len(vals) == n:
                    val = vals[i]
                else:
                    val = self.item(v, C(i), st)
                nxt = []
                for a, sig in cur:
                    nxt += [(a, sig)] if sig else self.assign(e, val, a, func)
                cur = nxt
            return cur
        st.imp("assignment target")
        return [(st, None)]

    def canon_base(self, base, name, st, store=False):
        """Owner of a class level attribute reached through class/instance."""
        if base[0] == "cls":
            c = self._cls(base)
        else:
            ty = self.typeof(base)
            c = ty[1] if ty and ty[0] == "cls" else None
            if store:
                return base
        if c is None:
            return base
        if store:
            return base
        if base[0] == "cls":
            for k in c.mro:
                if isinstance(k, ClassInfo):
                    kb = ("cls", k.name)
                    if (kb, name) in st.heap:
                        return kb
                    if name in k.attrs:
                        return kb
            return base
        if (base, name) in st.heap:
            return base
        own = None
        for k in c.mro:
            if isinstance(k, ClassInfo) and name in k.attrs:
                own = k
                break
        if own is None:
            return base
        # written on instances anywhere?
        for m, n in self.P.inst_attr_writes.get(name, []):
            b = n.value
            if isinstance(b, ast.Name):
                r = self.P.resolve(m, b.id)
                if r and r[0] == "class":
                    continue
                if b.id == "cls":
                    continue
                return base
            elif isinstance(b, ast.Attribute):
                return base
            else:
                return base
        return ("cls", own.name)

    def setattr(self, base, name, v, st, func, node):
        b = self.canon_base(base, name, st, store=True)
        if b[0] == "mod" and b[1] in self.P.mods:
            pass
        st.heap[(b, name)] = v
        self.emit(st, "setattr", name, self.snap(b, st), {"value": self.snap(v, st)},
                  None, func, node)
        bs = ("attr", self.snap(b, st), name)
        self.bump(st, bs)

    def setitem(self, base, k, v, st, func, node):
        if base[0] == "ref":
            self.cell_setitem(st, base, k, v)
            return [(st, None)]
        bs = self.snap(base, st)
        ks, vs = self.snap(k, st), self.snap(v, st)
        fi = self.method_of(base, "__setitem__")
        if fi is not None and self.want_inline(fi):
            return [(a, ("raise", x) if x else None) for a, _, x in
                    self.inline(fi, base, [k, v], [], st, func, node)]
        ev = self.emit(st, "setitem", "[]=", bs, {"key": ks, "value": vs}, None, func, node)
        self.bump(st, bs)
        out = [(q, ("raise", y)) for q, _, y in self.implicit(st, func, node, ev)]
        out.append((st, None))
        return out

    def cell_setitem(self, st, ref, k, v):
        c = st.cells[ref]
        ks = self.snap(k, st)
        if c.kind == "dict":
            ps = list(c.parts)
            if is_c(ks):
                ps = [p for p in ps if not (p[0] == "kv" and self.snap(p[1], st) == ks)]
            ps.append(("kv", k, v))
            st.cells[ref] = Cell("dict", ps)
        elif c.kind == "list" and is_c(ks) and isinstance(ks[2], int) and all(
                p[0] == "one" for p in c.parts) and -len(c.parts) <= ks[2] < len(c.parts):
            ps = list(c.parts)
            ps[ks[2]] = ("one", v)
            st.cells[ref] = Cell("list", ps)
        else:
            st.cells[ref] = Cell(c.kind, c.parts + (("unknown",),))

    def dict_update(self, st, ref, v):
        """ref.update(v)"""
        c = st.cells[ref]
        if v[0] == "ref" and st.cells[v].kind == "dict":
            for p in st.cells[v].parts:
                if p[0] == "kv":
                    self.cell_setitem(st, ref, p[1], p[2])
                else:
                    st.cells[ref] = Cell("dict", st.cells[ref].parts + (p,))
        else:
            st.cells[ref] = Cell("dict", c.parts + (("**", self.snap(v, st)),))

    def iter_parts(self, v, st):
        if v[0] == "ref":
            c = st.cells[v]
            if c.kind in ("list", "set"):
                return c.parts
            return tuple(("one", p[1]) if p[0] == "kv" else ("*", p[1]) for p in c.parts)
        if v[0] == "tuple":
            return tuple(("one", x) for x in v[1])
        return (("*", v),)

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, func):
        """-> [(state, bool, exc)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, (not b) if x is None else b, x) for a, b, x in self.cond(e.operand, st, func)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            live, out = [st], []
            for i, v in enumerate(e.values):
                nxt = []
                for a in live:
                    for b, t, x in self.cond(v, a, func):
                        if x:
                            out.append((b, None, x))
                        elif t == is_and:
                            nxt.append(b)
                        else:
                            out.append((b, t, None))
                live = nxt
            return out + [(a, is_and, None) for a in live]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            live = []
            for a, l, x in self.ev(e.left, st, func):
                live.append((a, l, x))
            out = [(a, None, x) for a, _, x in live if x]
            live = [(a, l) for a, l, x in live if not x]
            for op, right in zip(e.ops, e.comparators):
                nxt = []
                for a, l in live:
                    for b, r, x in self.ev(right, a, func):
                        if x:
                            out.append((b, None, x))
                            continue
                        for c, t in self.compare(op, l, r, b):
                            if t:
                                nxt.append((c, r))
                            else:
                                out.append((c, False, None))
                live = nxt
            return out + [(a, True, None) for a, _ in live]
        if isinstance(e, ast.Compare):
            out = []
            for a, l, x in self.ev(e.left, st, func):
                if x:
                    out.append((a, None, x))
                    continue
                for b, r, x2 in self.ev(e.comparators[0], a, func):
                    if x2:
                        out.append((b, None, x2))
                        continue
                    inl = self._inline_compare(e.ops[0], l, r, b, func, e)
                    if inl is not None:
                        out += inl
                        continue
                    out += [(c, t, None) for c, t in self.compare(e.ops[0], l, r, b)]
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for a, t, x in self.cond(e.test, st, func):
                if x:
                    out.append((a, None, x))
                else:
                    out += self.cond(e.body if t else e.orelse, a, func)
            return out
        if isinstance(e, ast.NamedExpr):
            pass
        out = []
        for a, v, x in self.ev(e, st, func):
            if x:
                out.append((a, None, x))
            else:
                out += [(b, t, None) for b, t in self.truth(v, a)]
        return out

    def _inline_compare(self, op, l, r, st, func, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            fi = self.method_of(r, "__contains__")
            if fi is not None and self.want_inline(fi):
                out = []
                for a, v, x in self.inline(fi, r, [l], [], st, func, node):
                    if x:
                        out.append((a, None, x))
                    else:
                        for b, t in self.truth(v, a):
                            out.append((b, t == isinstance(op, ast.In), None))
                return out
        return None

    def compare(self, op, l, r, st):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.mk_eq(l, r, st)
        elif isinstance(op, (ast.Is, ast.IsNot)):
            if r == NONE or l == NONE:
                t = self.mk_eq(l, r, st)
            else:
                t = self.mk_is(l, r, st)
        elif isinstance(op, (ast.In, ast.NotIn)):
            return [(s, b != neg) for s, b in self.cond_in(l, r, st)]
        elif isinstance(op, ast.Lt):
            t = self.mk_lt(l, r, st)
        elif isinstance(op, ast.Gt):
            t = self.mk_lt(r, l, st)
        elif isinstance(op, ast.LtE):
            t = ("not", self.mk_lt(r, l, st))
        elif isinstance(op, ast.GtE):
            t = ("not", self.mk_lt(l, r, st))
        else:
            t = ("cmp", l, r)
        return [(s, b != neg) for s, b in self.truth(t, st)]

    def mk_eq(self, l, r, st):
        l, r = self.snap(l, st), self.snap(r, st)
        if is_c(l) and is_c(r):
            try:
                return C(bool(l[2] == r[2]))
            except Exception:
                pass
        if l == r and l[0] not in ("call",):
            return TRUE
        if l[0] == "cls" and r[0] == "cls":
            return C(l == r)
        if is_c(l):
            l, r = r, l
        if r == NONE:
            return self.mk_isnone(l)
        if r == TRUE and self._is_boolish(l):
            return l
        if r == FALSE and self._is_boolish(l):
            return ("not", l)
        if l[0] == "call" and l[1] == ("ext", "len") and len(l[2]) == 1 and r == C(0):
            return ("not", ("truthy", l[2][0]))
        a, b = sorted((l, r), key=repr)
        if a[0] == "call" and b[0] == "call" and a[1] == b[1] == ("ext", "id"):
            return self.mk_is(a[2][0], b[2][0], st)
        return ("eq", a, b)

    def _is_boolish(self, t):
        return t[0] in ("not", "eq", "is", "in", "lt", "isnone", "isinstance", "hasattr", "truthy",
                        "any", "isgood")

    def mk_isnone(self, l):
        if is_c(l):
            return C(l[2] is None)
        if l[0] in ("list", "dict", "set", "tuple", "cat", "new", "cls", "fn", "closure", "exc", "bound"):
            return FALSE
        if l[0] == "call" and l[1][0] == "cls":
            return FALSE
        return ("isnone", l)

    def mk_is(self, l, r, st):
        l, r = self.snap(l, st), self.snap(r, st)
        if l == r:
            return TRUE
        if l[0] == "cls" and r[0] == "cls":
            return C(l == r)
        a, b = sorted((l, r), key=repr)
        return ("is", a, b)

    def mk_lt(self, l, r, st):
        l, r = self.snap(l, st), self.snap(r, st)
        if is_c(l) and is_c(r):
            try:
                return C(bool(l[2] < r[2]))
            except Exception:
                pass

        def ln(t):
            return t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1
        if l == C(0) and ln(r):
            return ("truthy", r[2][0])
        if ln(l) and r == C(1):
            return ("not", ("truthy", l[2][0]))
        return ("lt", l, r)

    def cond_in(self, l, r, st):
        lit = self.literal_elems(r, st)
        if lit is not None and len(lit) <= 8 and not (r[0] == "ref" and st.cells[r].kind == "dict"):
            live, out = [st], []
            for e in lit:
                nxt = []
                for a in live:
                    for b, t in self.truth(self.mk_eq(l, e, a), a):
                        if t:
                            out.append((b, True))
                        else:
                            nxt.append(b)
                live = nxt
            return out + [(a, False) for a in live]
        return self.truth(self.mk_in(l, r, st), st)

    def mk_in(self, l, r, st):
        r0 = r
        while r0[0] == "call" and ((r0[1][0] == "ext" and r0[1][1] in (
                "list", "tuple", "set", "frozenset", "sorted", "iter") and len(r0[2]) == 1)):
            r0 = r0[2][0]
        if r0[0] == "call" and r0[1][0] == "attr" and r0[1][2] == "keys" and not r0[2]:
            r0 = r0[1][1]
        if r0[0] == "ref":
            c = st.cells[r0]
            if c.kind in ("list", "set") and len(c.parts) == 1 and c.parts[0][0] == "*":
                r0 = c.parts[0][1]
        rs = self.snap(r0, st)
        return ("in", self.snap(l, st), rs, self.ver(st, rs))

    def truth(self, v, st):
        """Fork on the truth of a value -> [(state, bool)]"""
        if v[0] == "not":
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if v[0] == "and" or v[0] == "or":
            is_and = v[0] == "and"
            live, out = [st], []
            for t in v[1]:
                nxt = []
                for a in live:
                    for b, x in self.truth(t, a):
                        if x == is_and:
                            nxt.append(b)
                        else:
                            out.append((b, x))
                live = nxt
            return out + [(a, is_and) for a in live]
        if is_c(v):
            return [(st, bool(v[2]))]
        if v[0] == "ref":
            c = st.cells[v]
            if any(p[0] in ("one", "kv") for p in c.parts):
                return [(st, True)]
            if not c.parts:
                return [(st, False)]
            v = ("truthy", self.snap(v, st))
        elif v[0] == "tuple":
            return [(st, bool(v[1]))]
        elif v[0] in ("cls", "fn", "closure", "mod", "bound", "exc", "new"):
            if v[0] == "new":
                pass
            return [(st, True)]
        elif not self._is_boolish(v):
            v = self.snap(v, st)
            if v[0] == "call" and v[1] == ("ext", "len") and len(v[2]) == 1:
                v = ("truthy", v[2][0])
            elif v[0] == "call" and v[1] == ("ext", "bool") and len(v[2]) == 1:
                return self.truth(v[2][0], st)
            elif v[0] == "op" and v[1] == "&" :
                v = ("truthy", v)
            else:
                v = ("truthy", v)
        if v[0] == "truthy" and is_c(v[1]):
            return [(st, bool(v[1][2]))]
        known = self.known(v, st)
        if known is not None:
            return [(st, known)]
        s2 = st.copy()
        st.guards.append((v, True, len(st.events)))
        s2.guards.append((v, False, len(s2.events)))
        return [(st, True), (s2, False)]

    def known(self, v, st):
        for c, b, _ in st.guards:
            if c == v:
                return b
            if b and c[0] == "isnone" and v[0] == "truthy" and c[1] == v[1]:
                return False
            if b and c[0] == "truthy" and v[0] == "isnone" and c[1] == v[1]:
                return False
            if b and c[0] == "isinstance" and v[0] == "isnone" and c[1] == v[1]:
                return False
            if b and c[0] == "isnone" and v[0] == "isinstance" and c[1] == v[1]:
                return False
            if b and c[0] == "isnone" and v[0] == "eq" and c[1] in v[1:]:
                o = v[2] if v[1] == c[1] else v[1]
                if is_c(o):
                    return False
            if b and c[0] == "eq" and v[0] == "eq" and c != v:
                # x == c1 and x == c2
                for i in (1, 2):
                    for j in (1, 2):
                        if c[i] == v[j] and is_c(c[3 - i]) and is_c(v[3 - j]) \
                                and c[3 - i] != v[3 - j]:
                            return False
            if b and c[0] == "isinstance" and v[0] == "isinstance" and c[1] == v[1]:
                r = self._isinst_implies(c[2], v[2])
                if r is not None:
                    return r
            if (not b) and c[0] == "isinstance" and v[0] == "isinstance" and c[1] == v[1]:
                if self._isinst_implies(v[2], c[2]) is True:
                    return False
        if self.pol.facts is not None:
            r = self.pol.facts(v)
            if r is not None:
                return r
        return None

    def _isinst_implies(self, a, b):
        if a == b:
            return True
        ca, cb = self.P.class_by_name(a), self.P.class_by_name(b)
        if ca is not None and cb is not None:
            if ca.is_sub(cb):
                return True
            return None
        if {a, b} <= {"str", "int", "list", "dict", "tuple", "set", "bytes", "float"}:
            return False
        if (ca is None) != (cb is None):
            c, o = (ca, b) if ca is not None else (cb, a)
            if o in ("str", "int", "list", "dict", "tuple", "float") and o not in [
                    x.split(".")[-1] for x in c.ext_bases()]:
                if not c.ext_bases() or all(
                        x in ("parameterizable.ParameterizableClass", "abc.ABC",
                              "persidict.SafeStrTuple", "persidict.PersiDict")
                        for x in c.ext_bases()):
                    return False
        return None

    def assume(self, st, cond, b):
        if is_c(cond):
            return bool(cond[2]) == b
        k = self.known(cond, st)
        if k is not None:
            return k == b
        st.guards.append((cond, b, len(st.events)))
        return True

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, func):
        """-> [(state, term, exc)]"""
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise TooManyPaths(func.fq + " (steps)")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            st.imp(f"expression {type(e).__name__} at {self.loc(func, e)}")
            return [(st, ("unknown", self.loc(func, e)), None)]
        return m(e, st, func)

    def evs(self, es, st, func):
        """Evaluate a list -> [(state, [terms], exc)]"""
        cur = [(st, [], None)]
        for e in es:
            nxt = []
            for a, vs, x in cur:
                if x:
                    nxt.append((a, vs, x))
                    continue
                for b, v, x2 in self.ev(e, a, func):
                    nxt.append((b, vs + [v], x2))
            cur = nxt
        return cur

    def e_Constant(self, e, st, func):
        return [(st, C(e.value), None)]

    def e_Name(self, e, st, func):
        return [(st, self.name(e.id, st, func), None)]

    def name(self, n, st, func):
        if n in st.env:
            v = st.env[n]
            if v[0] != "globaldecl":
                return v
            g = ("gvar", func.mod.name, n)
            return st.heap.get(("global", g), g)
        r = self.P.resolve(func.mod, n)
        if r is None:
            if func.cls is not None and n == "__class__":
                return ("cls", func.cls.name)
            return ("ext", n)
        if r[0] == "var":
            g = ("gvar", r[1].name, r[2])
            if ("global", g) in st.heap:
                return st.heap[("global", g)]
            if (r[3] is not None and r[1].assign_count.get(r[2], 0) == 1
                    and r[2] not in r[1].global_written):
                if isinstance(r[3], ast.Constant):
                    return C(r[3].value)
                if isinstance(r[3], (ast.Name, ast.Attribute)):
                    rr = self.P.resolve_expr(r[1], r[3])
                    return self._binding(rr, n)
                if isinstance(r[3], (ast.Tuple, ast.List)) and all(
                        isinstance(x, ast.Constant) for x in r[3].elts):
                    return ("tuple", tuple(C(x.value) for x in r[3].elts))
            return g
        return self._binding(r, n)

    def _binding(self, r, n):
        if r is None:
            return ("ext", n)
        if r[0] == "func":
            return ("fn", r[1].fq)
        if r[0] == "class":
            return ("cls", r[1].name)
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "var":
            return ("gvar", r[1].name, r[2])
        return ("ext", n)

    def e_Attribute(self, e, st, func):
        out = []
        for a, base, x in self.ev(e.value, st, func):
            if x:
                out.append((a, None, x))
            else:
                out += self.getattr(base, e.attr, a, func, e)
        return out

    def getattr(self, base, name, st, func, node):
        if name == "__class__":
            return [(st, self.type_of(base, st), None)]
        if base[0] == "mod":
            m = self.P.mods.get(base[1])
            if m is not None:
                r = self.P.resolve(m, name)
                if r is not None:
                    if r[0] == "var":
                        g = ("gvar", r[1].name, r[2])
                        return [(st, st.heap.get(("global", g), g), None)]
                    return [(st, self._binding(r, name), None)]
                return [(st, ("attr", base, name), None)]
            if (base, name) in st.heap:
                return [(st, st.heap[(base, name)], None)]
            if base[1] in ("sys", "logging") and name in (
                    "stdout", "stderr", "root", "excepthook", "__excepthook__", "modules"):
                return [(st, ("attr", base, name), None)]
            return [(st, ("ext", f"{base[1]}.{name}"), None)]
        if base[0] == "ext":
            if (base, name) in st.heap:
                return [(st, st.heap[(base, name)], None)]
            return [(st, ("ext", f"{base[1]}.{name}"), None)]
        if base[0] == "super":
            return self.super_attr(base, name, st, func, node)
        if base[0] == "cls":
            c = self._cls(base)
            if c is not None:
                nested = getattr(c, "nested", {}).get(name)
                f = self._find_member(c, name)
                if isinstance(f, FuncInfo):
                    if f.kind == "class":
                        return [(st, ("bound", base, f.fq), None)]
                    return [(st, ("fn", f.fq), None)]
                if nested is not None:
                    return [(st, ("cls", nested.name), None)]
                if name == "__name__":
                    return [(st, C(c.name), None)]
            b = self.canon_base(base, name, st)
            if (b, name) in st.heap:
                return [(st, st.heap[(b, name)], None)]
            return [(st, ("attr", b, name), None)]
        # instance
        if (base, name) in st.heap:
            v = st.heap[(base, name)]
            if v[0] != "deleted":
                return [(st, v, None)]
        ty = self.typeof(base)
        c = ty[1] if ty and ty[0] == "cls" else None
        if base in self.exact:
            c = self.exact[base]
        if c is not None:
            f = self._find_member(c, name)
            if isinstance(f, FuncInfo):
                if f.kind == "property":
                    return self.prop(f, c, base, name, st, func, node)
                if f.kind == "static":
                    return [(st, ("fn", f.fq), None)]
                if f.kind == "class":
                    return [(st, ("bound", ("cls", c.name), f.fq), None)]
                return [(st, ("bound", base, f.fq), None)]
            for k in c.mro:
                if isinstance(k, ClassInfo) and name in getattr(k, "nested", {}):
                    return [(st, ("cls", k.nested[name].name), None)]
        b = self.canon_base(base, name, st)
        if (b, name) in st.heap and st.heap[(b, name)][0] != "deleted":
            return [(st, st.heap[(b, name)], None)]
        return [(st, ("attr", self.snap(b, st), name), None)]

    def _find_member(self, c, name):
        for k in c.mro:
            if isinstance(k, ClassInfo):
                if name in k.methods:
                    return k.methods[name]
                if name in k.attrs:
                    v = k.attrs[name]
                    if isinstance(v, ast.Name) and v.id in k.methods:
                        return k.methods[v.id]
                    return None
        return None

    def prop(self, f, c, base, name, st, func, node):
        if f.is_generator or not self.want_inline(f, prop=True):
            if self.is_volatile(f, name):
                t = ("prop", f"{f.cls.name}.{name}", f.fq)
                key = (t, base)
                n = st.occ.get(key, 0)
                st.occ[key] = n + 1
                res = ("call", t, (self.snap(base, st),), (), n)
                ev = self.emit(st, "call", f.qual, self.snap(base, st), {}, res, func, node)
                out = self.implicit(st, func, node, ev)
                self.havoc(st, f)
                out.append((st, res, None))
                return out
            return [(st, ("attr", self.snap(base, st), name), None)]
        return self.inline(f, base, [], [], st, func, node)

    def is_volatile(self, f, name):
        if name in self.pol.stable or f.qual in self.pol.stable:
            return False
        if name in self.pol.volatile or f.qual in self.pol.volatile:
            return True
        return name in VOLATILE_PROPS

    def super_attr(self, base, name, st, func, node):
        _, owner, selft = base
        c = None
        if selft[0] == "cls":
            c = self._cls(selft)
        else:
            ty = self.typeof(selft)
            c = self.exact.get(selft) or (ty[1] if ty and ty[0] == "cls" else None)
        oc = self.P.class_by_name(owner)
        if c is None or oc not in c.mro:
            c = oc
        mro = c.mro[c.mro.index(oc) + 1:]
        for k in mro:
            if isinstance(k, ClassInfo):
                f = k.methods.get(name)
                if f is not None:
                    if f.kind == "property":
                        return self.prop(f, c, selft, name, st, func, node)
                    if f.kind == "static":
                        return [(st, ("fn", f.fq), None)]
                    return [(st, ("bound", selft, f.fq), None)]
                if name in k.attrs:
                    return [(st, ("attr", ("cls", k.name), name), None)]
        ext = next((k for k in mro if isinstance(k, str)), "object")
        return [(st, ("extbound", ext, name, selft), None)]

    def type_of(self, t, st):
        if t in self.exact:
            return ("cls", self.exact[t].name)
        if t[0] == "new":
            return ("cls", t[1])
        if t[0] == "call" and t[1][0] == "cls":
            return t[1]
        if t[0] == "exc":
            return ("exctype", t)
        return ("typeof", self.snap(t, st))

    def e_Subscript(self, e, st, func):
        out = []
        for a, base, x in self.ev(e.value, st, func):
            if x:
                out.append((a, None, x))
                continue
            for b, k, x2 in self.ev(e.slice, a, func):
                if x2:
                    out.append((b, None, x2))
                    continue
                out += self.getitem(base, k, b, func, e)
        return out

    def getitem(self, base, k, st, func, node):
        if base[0] in ("ref", "tuple"):
            cut = self.cut(base, k, st)
            return [(st, self.item(base, k, st) if cut is None else cut, None)]
        if k[0] == "slice":
            return [(st, ("item", self.snap(base, st), self.snap(k, st), 0), None)]
        fi = self.method_of(base, "__getitem__")
        if fi is not None and self.want_inline(fi):
            return self.inline(fi, base, [k], [], st, func, node)
        t = self.item(base, k, st)
        if t[0] != "item":
            return [(st, t, None)]
        if is_c(k) and isinstance(k[2], int):
            return [(st, t, None)]
        ev = self.emit(st, "getitem", "[]", t[1], {"key": t[2]}, t, func, node)
        return self.implicit(st, func, node, ev) + [(st, t, None)]

    def cut(self, base, k, st):
        """A constant slice of a list or tuple whose items are all known."""
        if k[0] != "slice" or not all(is_c(x) for x in k[1:]):
            return None
        sl = slice(*(x[2] for x in k[1:]))
        try:
            if base[0] == "tuple":
                return ("tuple", base[1][sl])
            c = st.cells[base]
            if c.kind == "list" and all(p[0] == "one" for p in c.parts):
                return self.new_cell(st, "list", c.parts[sl])
        except (TypeError, ValueError, KeyError):
            pass
        return None

    def e_Slice(self, e, st, func):
        parts = [e.lower or ast.Constant(None), e.upper or ast.Constant(None),
                 e.step or ast.Constant(None)]
        return [(a, ("slice",) + tuple(vs) if not x else None, x)
                for a, vs, x in self.evs(parts, st, func)]

    def e_Tuple(self, e, st, func):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self._seq(e, st, func, "list")
        return [(a, ("tuple", tuple(vs)) if not x else None, x)
                for a, vs, x in self.evs(e.elts, st, func)]

    def _seq(self, e, st, func, kind):
        out = []
        flags = [isinstance(x, ast.Starred) for x in e.elts]
        es = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for a, vs, x in self.evs(es, st, func):
            if x:
                out.append((a, None, x))
                continue
            parts = ()
            for f, v in zip(flags, vs):
                parts += self.iter_parts(v, a) if f else (("one", v),)
            out.append((a, self.new_cell(a, kind, parts), None))
        return out

    def e_List(self, e, st, func):
        return self._seq(e, st, func, "list")

    def e_Set(self, e, st, func):
        return self._seq(e, st, func, "set")

    def e_Dict(self, e, st, func):
        es = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                es.append(k)
            es.append(v)
        out = []
        for a, vs, x in self.evs(es, st, func):
            if x:
                out.append((a, None, x))
                continue
            r = self.new_cell(a, "dict")
            i = 0
            for k in e.keys:
                if k is None:
                    self.dict_update(a, r, vs[i])
                    i += 1
                else:
                    self.cell_setitem(a, r, vs[i], vs[i + 1])
                    i += 2
            out.append((a, r, None))
        return out

    def e_JoinedStr(self, e, st, func):
        es = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                es.append(p)
            else:
                es.append(p)
        return [(a, cat([self.snap(v, a) for v in vs]) if not x else None, x)
                for a, vs, x in self.evs(es, st, func)]

    def e_FormattedValue(self, e, st, func):
        out = []
        for a, v, x in self.ev(e.value, st, func):
            if x is None and v is not None:
                if v[0] == "call" and v[1] == ("ext", "str") and len(v[2]) == 1:
                    v = v[2][0]
                if is_c(v) and e.format_spec is None and e.conversion == -1:
                    v = C(str(v[2]))
                elif e.format_spec is not None or e.conversion not in (-1, 115):
                    v = ("fmt", self.snap(v, a), e.conversion,
                         ast.dump(e.format_spec) if e.format_spec else "")
            out.append((a, v, x))
        return out

    def e_BinOp(self, e, st, func):
        out = []
        opn = _OPS.get(type(e.op), "?")
        for a, vs, x in self.evs([e.left, e.right], st, func):
            if x:
                out.append((a, None, x))
            else:
                out.append((a, self.binop(opn, vs[0], vs[1], a), None))
        return out

    def _stringy(self, t):
        if is_c(t):
            return isinstance(t[2], str)
        ty = self.typeof(t) if isinstance(t, tuple) else None
        return t[0] == "cat" or ty == ("py", "str")

    def binop(self, opn, l, r, st):
        if opn == "+" and (self._stringy(l) or self._stringy(r)):
            def un(t):
                if t[0] == "call" and t[1] == ("ext", "str") and len(t[2]) == 1:
                    return t[2][0]
                return self.snap(t, st)
            return cat([un(l), un(r)])
        if opn == "+" and l[0] == "ref" and st.cells[l].kind == "list" and (
                r[0] in ("ref", "tuple")):
            return self.new_cell(st, "list", st.cells[l].parts + self.iter_parts(r, st))
        if opn == "+" and l[0] == "tuple" and r[0] == "tuple":
            return ("tuple", l[1] + r[1])
        if opn == "|" and l[0] == "ref" and st.cells[l].kind == "dict":
            n = self.new_cell(st, "dict", st.cells[l].parts)
            self.dict_update(st, n, r)
            return n
        l, r = self.snap(l, st), self.snap(r, st)
        if is_c(l) and is_c(r):
            try:
                v = _FOLD[opn](l[2], r[2])
                if isinstance(v, (int, float, str)) and (not isinstance(v, str) or len(v) < 500):
                    return C(v)
            except Exception:
                pass
        return ("op", opn, l, r)

    def e_UnaryOp(self, e, st, func):
        if isinstance(e.op, ast.Not):
            return [(a, C(b) if x is None else None, x) for a, b, x in self.cond(e, st, func)]
        out = []
        for a, v, x in self.ev(e.operand, st, func):
            if x:
                out.append((a, None, x))
            elif is_c(v) and isinstance(e.op, ast.USub):
                out.append((a, C(-v[2]), None))
            else:
                out.append((a, ("op", type(e.op).__name__, self.snap(v, a)), None))
        return out

    def e_Compare(self, e, st, func):
        # value context: keep it as a term when it has no side conditions
        if len(e.ops) == 1:
            out = []
            for a, vs, x in self.evs([e.left, e.comparators[0]], st, func):
                if x:
                    out.append((a, None, x))
                    continue
                l, r = vs
                op = e.ops[0]
                inl = self._inline_compare(op, l, r, a, func, e)
                if inl is not None:
                    out += [(b, C(t) if y is None else None, y) for b, t, y in inl]
                    continue
                neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    t = self.mk_eq(l, r, a)
                elif isinstance(op, (ast.Is, ast.IsNot)):
                    t = self.mk_eq(l, r, a) if NONE in (l, r) else self.mk_is(l, r, a)
                elif isinstance(op, (ast.In, ast.NotIn)):
                    lit = self.literal_elems(r, a)
                    if lit is not None and not (r[0] == "ref" and a.cells[r].kind == "dict"):
                        t = ("or", tuple(self.mk_eq(l, y, a) for y in lit))
                    else:
                        t = self.mk_in(l, r, a)
                elif isinstance(op, ast.Lt):
                    t = self.mk_lt(l, r, a)
                elif isinstance(op, ast.Gt):
                    t = self.mk_lt(r, l, a)
                elif isinstance(op, ast.LtE):
                    t = ("not", self.mk_lt(r, l, a))
                else:
                    t = ("not", self.mk_lt(l, r, a))
                if neg:
                    t = ("not", t)
                if t[0] == "not" and t[1][0] == "not":
                    t = t[1][1]
                if t[0] == "not" and is_c(t[1]):
                    t = C(not t[1][2])
                out.append((a, t, None))
            return out
        return [(a, C(b) if x is None else None, x) for a, b, x in self.cond(e, st, func)]

    def e_BoolOp(self, e, st, func):
        # value of  a or b / a and b
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for a in cur:
                for b, t, x in self.ev(v, a, func):
                    if x:
                        out.append((b, None, x))
                    elif last:
                        out.append((b, t, None))
                    else:
                        for c, tr in self.truth(t, b):
                            if tr == is_and:
                                nxt.append(c)
                            else:
                                out.append((c, C(tr) if self._is_boolish(t) or t[0] == "not" else t, None))
            cur = nxt
        return out

    def e_IfExp(self, e, st, func):
        out = []
        for a, b, x in self.cond(e.test, st, func):
            if x:
                out.append((a, None, x))
            else:
                out += self.ev(e.body if b else e.orelse, a, func)
        return out

    def e_NamedExpr(self, e, st, func):
        out = []
        for a, v, x in self.ev(e.value, st, func):
            if not x:
                a.env[e.target.id] = v
            out.append((a, v, x))
        return out

    def e_Lambda(self, e, st, func):
        return [(st, self.closure(e, st, func), None)]

    def e_Starred(self, e, st, func):
        st.imp("starred")
        return self.ev(e.value, st, func)

    def e_Yield(self, e, st, func):
        if e.value is None:
            self.emit(st, "yield", "yield", None, {"value": NONE}, None, func, e)
            return [(st, ("sent",), None)]
        out = []
        for a, v, x in self.ev(e.value, st, func):
            if not x:
                self.emit(a, "yield", "yield", None, {"value": self.snap(v, a)}, None, func, e)
            out.append((a, ("sent",), x))
        return out
    e_YieldFrom = e_Yield

    def e_Await(self, e, st, func):
        st.imp("await")
        return self.ev(e.value, st, func)

    # comprehensions ---------------------------------------------------------
    def e_ListComp(self, e, st, func):
        return self._comp(e, st, func, "list")

    def e_SetComp(self, e, st, func):
        return self._comp(e, st, func, "set")

    def e_GeneratorExp(self, e, st, func):
        return self._comp(e, st, func, "list")

    def e_DictComp(self, e, st, func):
        return self._comp(e, st, func, "dict")

    def _comp(self, e, st, func, kind):
        """Desugar into loops that append to a fresh collection."""
        saved = dict(st.env)
        acc = "$acc%d" % e.col_offset + "_%d" % e.lineno
        r = self.new_cell(st, kind)
        st.env[acc] = r
        if kind == "dict":
            body = ast.Assign(targets=[ast.Subscript(
                value=ast.Name(acc, ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        else:
            body = ast.Expr(ast.Call(func=ast.Attribute(
                value=ast.Name(acc, ast.Load()), attr="add" if kind == "set" else "append",
                ctx=ast.Load()), args=[e.elt], keywords=[]))
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
        _fix(body, e)
        out = []
        for a, sig in self.stmt(body, st, func):
            a.env = {**{k: v for k, v in saved.items()},
                     **{k: a.env[k] for k in a.env if k in saved and not k.startswith("$")}}
            for k in list(a.env):
                if k in saved:
                    a.env[k] = saved[k]
            if sig and sig[0] == "raise":
                out.append((a, None, sig[1]))
            else:
                out.append((a, r, None))
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, func):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self._super(e, st, func)
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and "any" not in st.env:
            return self._anyall(e, st, func)
        out = []
        for a, f, x in self.ev(e.func, st, func):
            if x:
                out.append((a, None, x))
                continue
            es = [y.value if isinstance(y, ast.Starred) else y for y in e.args] + [
                k.value for k in e.keywords]
            for b, vs, x2 in self.evs(es, a, func):
                if x2:
                    out.append((b, None, x2))
                    continue
                args = []
                for y, v in zip(e.args, vs):
                    if isinstance(y, ast.Starred):
                        lit = self.literal_elems(v, b)
                        if lit is not None:
                            args += lit
                        else:
                            args.append(("*", v))
                    else:
                        args.append(v)
                kws = []
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if v[0] == "ref" and b.cells[v].kind == "dict":
                            ps = b.cells[v].parts
                            lastp = max((i for i, p in enumerate(ps) if not (p[0] == "kv" and is_c(p[1]))), default=-1)
                            for i, p in enumerate(ps):
                                if p[0] == "kv" and is_c(p[1]) and i < lastp:
                                    # a later part may replace it
                                    kws.append(("**", ("dict", (p,))))
                                elif p[0] == "kv" and is_c(p[1]):
                                    kws = [q for q in kws if q[0] != p[1][2]]
                                    kws.append((p[1][2], p[2]))
                                else:
                                    kws.append(("**", p[1] if p[0] == "**" else p))
                        else:
                            kws.append(("**", v))
                    else:
                        kws.append((k.arg, v))
                out += self.call(f, args, kws, b, func, e)
        return out

    def _super(self, e, st, func):
        if e.args:
            out = []
            for a, vs, x in self.evs(e.args, st, func):
                if x:
                    out.append((a, None, x))
                    continue
                if len(vs) == 2 and vs[0][0] == "cls":
                    t = vs[1]
                    out.append((a, ("super", vs[0][1], t), None))
                else:
                    a.imp("super(...)")
                    out.append((a, ("unknown", "super"), None))
            return out
        f = func
        first = f.node.args.args[0].arg if f.node.args.args else None
        if f.cls is None or first is None or first not in st.env:
            st.imp("super() outside a method")
            return [(st, ("unknown", "super"), None)]
        return [(st, ("super", f.cls.name, st.env[first]), None)]

    def _anyall(self, e, st, func):
        g = e.args[0]
        is_all = e.func.id == "all"
        out = []
        # evaluate the predicate on the generic element
        if len(g.generators) != 1:
            st.imp("nested any/all")
            return [(st, ("unknown", self.loc(func, e)), None)]
        gen = g.generators[0]
        for a, it, x in self.ev(gen.iter, st, func):
            if x:
                out.append((a, None, x))
                continue
            its = self.snap(it, a)
            s2 = a.copy()
            n0, g0 = len(s2.events), len(s2.guards)
            el = self.fresh(it, [(self.elem(it, s2), ())], s2)[0][0]
            preds = []
            ok = True
            for b, sig in self.assign(gen.target, el, s2, func):
                cur = [(b, True)]
                for c in gen.ifs:
                    nxt = []
                    for q, alive in cur:
                        for r, t, y in self.cond(c, q, func):
                            if y is None and t:
                                nxt.append((r, True))
                    cur = nxt
                for q, _ in cur:
                    gb = len(q.guards)
                    ifc = tuple((x_[0], x_[1]) for x_ in q.guards[g0:])
                    for r, v, y in self.ev(g.elt, q, func):
                        if y:
                            ok = False
                            continue
                        if len(r.guards) != gb:
                            pc = tuple((x_[0], x_[1]) for x_ in r.guards[gb:])
                        else:
                            pc = ()
                        preds.append((ifc, pc, self.snap(v, r)))
                        if len(r.events) > n0:
                            for ev in r.events[n0:]:
                                pass
            t = ("all" if is_all else "any", tuple(preds), its)
            if is_all:
                # canonical: all(p) == not any(not p)
                t = ("not", ("any", tuple((i, p, _neg(v)) for i, p, v in preds), its))
            out.append((a, t, None))
        return out

    # ---- dispatch
    def method_of(self, base, name):
        ty = self.typeof(base) if isinstance(base, tuple) else None
        c = self.exact.get(base) or (ty[1] if ty and ty[0] == "cls" else None)
        if c is None:
            return None
        m = self._find_member(c, name)
        return m if isinstance(m, FuncInfo) else None

    def call_method(self, recv, name, args, kws, st, func, node, evkind="call", exc=None):
        fi = self.method_of(recv, name)
        if fi is not None and self.want_inline(fi) and fi not in self.stack[-0:][:0] \
                and self.stack.count(fi) < 2 and len(self.stack) < MAX_DEPTH:
            return self.inline(fi, recv, args, kws, st, func, node)
        rs = self.snap(recv, st)
        args_d = {"exc": exc} if exc is not None else {}
        if evkind == "with_enter":
            key = ("enter", rs)
            n = st.occ.get(key, 0)
            st.occ[key] = n + 1
            res = recv if self._enter_returns_self(recv) else ("entered", rs, n)
        else:
            res = ("opaque_exit",)
        ev = self.emit(st, evkind, name, rs, args_d, None, func, node)
        out = []
        if evkind == "with_enter" or evkind == "with_exit":
            pass
        out.append((st, res, None))
        return out

    def _enter_returns_self(self, recv):
        ty = self.typeof(recv)
        if ty and ty[0] == "cls":
            f = self._find_member(ty[1], "__enter__")
            if isinstance(f, FuncInfo):
                rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
                return all(isinstance(r.value, ast.Name) and r.value.id ==
                           f.node.args.args[0].arg for r in rets) and bool(rets)
            return False
        # external: portals annotated loosely
        return recv[0] == "attr" and recv[2] == "portal"

    def want_inline(self, f, prop=False):
        q = f.qual
        if f.is_generator or f.is_async:
            return False
        if self.stack.count(f) >= 1 and f is not None:
            if q not in self.pol.inline or self.stack.count(f) >= 2:
                return False
        if len(self.stack) >= MAX_DEPTH:
            return False
        if q in self.pol.opaque or f.fq in self.pol.opaque or f.name in self.pol.opaque:
            return False
        if q in self.pol.inline or f.name in self.pol.inline:
            return True
        if self.pol.opaque_fn is not None:
            r = self.pol.opaque_fn(f)
            if r is not None:
                return not r
        if self.pol.default == "all":
            return True
        if self.pol.default == "none":
            return False
        return not is_api(f)

    def call(self, f, args, kws, st, func, node):
        k = f[0]
        if k == "closure":
            return self.inline_closure(f, args, kws, st, func, node)
        if k == "fn":
            fi = self.P.funcs.get(f[1])
            if fi.cls is not None and fi.kind in ("method", "property") and args:
                # Class.method(obj, ...)
                return self.call_func(fi, args[0], args[1:], kws, st, func, node)
            if fi.cls is not None and fi.kind == "method" and any(n == "self" for n, _ in kws):
                s = dict(kws)["self"]
                return self.call_func(fi, s, args, [q for q in kws if q[0] != "self"], st, func, node)
            if fi.cls is not None and fi.name == "__new__":
                return self.call_func(fi, None, args, kws, st, func, node)
            return self.call_func(fi, None, args, kws, st, func, node)
        if k == "bound":
            fi = self.P.funcs[f[2]]
            recv = f[1]
            if fi.name == "__new__":
                return self.call_func(fi, None, args, kws, st, func, node)
            return self.call_func(fi, recv, args, kws, st, func, node)
        if k == "cls":
            return self.construct(f, args, kws, st, func, node)
        if k == "extbound":
            return self.ext_call(("attr", ("super", f[1]), f[2]), f[3], args, kws, st, func, node,
                                 name=f"super:{f[1].split('.')[-1]}.{f[2]}")
        if k == "ext":
            return self.builtin(f, args, kws, st, func, node)
        if k == "attr":
            return self.method_call(f, args, kws, st, func, node)
        # calling a value: instance with __call__?
        fi = self.method_of(f, "__call__")
        if fi is not None:
            return self.call_func(fi, f, args, kws, st, func, node)
        return self.ext_call(f, None, args, kws, st, func, node, name="()")

    def bind(self, fi, recv, args, kws, st, drop_self=True):
        """Normalise arguments to parameter names. -> dict or None"""
        pos, kwo, va, kw = fi.params()
        pos = list(pos)
        out = {}
        if fi.kind in ("method", "property", "class") and pos:
            out[pos[0]] = recv
            pos = pos[1:]
        if any(isinstance(a, tuple) and a and a[0] == "*" for a in args):
            if va is not None and len(args) == 1 and not pos:
                out[va] = args[0][1]
                args = []
            elif va is not None:
                i = next(i for i, a in enumerate(args) if a[0] == "*")
                if i >= len(pos):
                    if i == len(pos) and len(args) == i + 1:
                        out[va] = args[i][1]
                    else:
                        out[va] = ("tuple", tuple(args[len(pos):]))
                    args = args[:len(pos)]
                else:
                    return None
            else:
                return None
        rest = []
        for i, a in enumerate(args):
            if i < len(pos):
                out[pos[i]] = a
            else:
                rest.append(a)
        if rest:
            if va is None:
                return None
            out[va] = ("tuple", tuple(rest))
        elif va is not None and va not in out:
            out[va] = ("tuple", ())
        extra = []
        star = []
        for n, v in kws:
            if n == "**":
                star.append(v)
            elif n in pos or n in kwo:
                out[n] = v
            else:
                extra.append((n, v))
        if extra and kw is None:
            return None
        if kw is not None:
            parts = [("**", s) for s in star] + [("kv", C(n), v) for n, v in extra]
            if len(parts) == 1 and parts[0][0] == "**":
                out[kw] = star[0]
            else:
                out[kw] = self.new_cell(st, "dict", parts)
        elif star:
            out["**"] = star[0] if len(star) == 1 else ("tuple", tuple(star))
        # defaults
        a = fi.node.args
        allpos = a.posonlyargs + a.args
        for p, d in zip(allpos[len(allpos) - len(a.defaults):], a.defaults):
            if p.arg not in out:
                out[p.arg] = self.const_default(d, fi)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out and d is not None:
                out[p.arg] = self.const_default(d, fi)
        for p in pos + list(kwo):
            if p not in out:
                out[p] = ("missing", p)
        return out

    def const_default(self, d, fi):
        if isinstance(d, ast.Constant):
            return C(d.value)
        return ("default", ast.unparse(d))

    def call_func(self, fi, recv, args, kws, st, func, node):
        if self.want_inline(fi):
            return self.inline(fi, recv, args, kws, st, func, node)
        return self.opaque_call(fi, recv, args, kws, st, func, node)

    def opaque_call(self, fi, recv, args, kws, st, func, node):
        self.opaqued.add(fi.fq)
        b = self.bind(fi, recv, args, kws, st)
        if b is None:
            b = {str(i): a for i, a in enumerate(args)}
            b.update({n: v for n, v in kws})
        first = None
        pos = fi.params()[0]
        if fi.kind in ("method", "property") and pos:
            first = b.pop(pos[0], recv)
        elif fi.kind == "class" and pos:
            first = b.pop(pos[0], recv)
        sargs = {k: self.snap(v, st) for k, v in b.items()}
        fs = self.snap(first, st) if first is not None else None
        fz = tuple(sorted(((k, v) for k, v in sargs.items()), key=lambda p: p[0]))
        key = ("occ", fi.fq, fs, fz)
        pure = fi.name in PURE_REPO
        n = 0 if pure else st.occ.get(key, 0)
        st.occ[key] = n + 1
        res = ("call", ("fn", fi.fq), (fs,) if fs is not None else (), fz, n)
        kind = "call"
        x = None
        if fi.name == "__enter__":
            kind = "with_enter"
            if self._enter_returns_self(recv):
                res = recv
        elif fi.name == "__exit__":
            kind = "with_exit"
            ev_exc = [v for k, v in sargs.items() if v[0] == "exc"]
            if ev_exc:
                sargs["exc"] = ev_exc[0]
        ev = self.emit(st, kind, fi.qual, fs, sargs, res, func, node)
        out = [] if pure and "hash" not in fi.name else self.implicit(st, func, node, ev)
        if not pure:
            self.havoc(st, fi)
        out.append((st, res, None))
        return out

    def havoc(self, st, fi):
        """Forget attribute values the (opaque) callee may overwrite."""
        wr = self.writes(fi)
        for k in list(st.heap):
            if k[0] != "global" and k[1] in wr:
                del st.heap[k]
        drop = []
        for i, (c, b, _) in enumerate(st.guards):
            if c[0] == "hasattr" and c[2] in wr:
                drop.append(i)
        for i in reversed(drop):
            c, b, j = st.guards[i]
            st.guards[i] = (("past", c), b, j)

    def writes(self, fi, seen=None):
        if fi.fq in self._wr_cache:
            return self._wr_cache[fi.fq]
        top = seen is None
        seen = seen if seen is not None else set()
        if fi.fq in seen:
            return set()
        seen.add(fi.fq)
        out = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                for g in self.P.by_name(n.attr):
                    if g.cls is not None:
                        out |= self.writes(g, seen)
            elif isinstance(n, ast.Name):
                for g in self.P.by_name(n.id):
                    if g.cls is None:
                        out |= self.writes(g, seen)
        if top:
            self._wr_cache[fi.fq] = out
        return out

    def inline(self, fi, recv, args, kws, st, func, node):
        b = self.bind(fi, recv, args, kws, st)
        if b is None:
            return self.opaque_call_raw(fi, recv, args, kws, st, func, node)
        self.inlined.add(fi.fq)
        if "**" in b:
            for p in list(b):
                if b[p][0] == "missing":
                    b[p] = ("item", self.snap(b["**"], st), C(p), 0)
            del b["**"]
        saved = st.env
        st.env = {}
        for k, v in b.items():
            if isinstance(v, tuple) and v and v[0] == "missing":
                st.imp(f"missing argument {v[1]} of {fi.qual}")
            st.env[k] = v
            ann = self._ann_type(fi, self._param_ann(fi, k))
            if ann is not None and v not in self.types and v[0] not in ("c", "ref", "tuple"):
                if self.typeof(v) is None:
                    self.types[v] = ann
        self.stack.append(fi)
        out = []
        try:
            res = self.block(fi.node.body, [st], fi)
        finally:
            self.stack.pop()
        for s, sig in res:
            s.env = dict(saved)
            if sig is None:
                out.append((s, NONE, None))
            elif sig[0] == "return":
                out.append((s, sig[1], None))
            elif sig[0] == "raise":
                out.append((s, None, sig[1]))
            else:
                out.append((s, NONE, None))
        return out

    def opaque_call_raw(self, fi, recv, args, kws, st, func, node):
        return self.opaque_call(fi, recv, args, kws, st, func, node)

    def inline_closure(self, f, args, kws, st, func, node):
        n, env, of = self.closures[f]
        if len(self.stack) >= MAX_DEPTH:
            st.imp("closure depth")
            return [(st, ("unknown", "closure"), None)]
        if isinstance(n, ast.Lambda):
            fake = ast.FunctionDef(name="<lambda>", args=n.args,
                                   body=[ast.Return(value=n.body)], decorator_list=[],
                                   returns=None, type_comment=None)
            _fix(fake, n)
        else:
            fake = n
        fi = FuncInfo(of.mod, fake)
        fi.cls_ctx = of.cls
        if fi.is_generator:
            st.imp("nested generator")
            return [(st, ("unknown", "generator"), None)]
        b = self.bind(fi, None, args, kws, st)
        if b is None:
            st.imp("closure arguments")
            return [(st, ("unknown", "closure"), None)]
        saved = st.env
        # the defining frame's variables as they are now, if it is the caller
        # (or something nested in it), later assignments included
        frame = func
        while isinstance(frame, _Nested) and frame.node is not of.node:
            frame = frame.outer
        inside = frame.node is of.node
        keys = set(env) | (_stores(of.node) if inside else set())
        base = saved if env is saved else {**env, **{k: saved[k] for k in keys if k in saved}}
        shared = {x for y in ast.walk(fake) if isinstance(y, ast.Nonlocal) for x in y.names}
        if shared and not inside:
            st.imp(f"nonlocal at {self.loc(func, node)}")
        st.env = {**base, **b}
        st.env[getattr(n, "name", "<lambda>")] = f
        fi.cls = of.cls if False else None
        self.stack.append(fi)
        out = []
        try:
            res = self.block(fake.body, [st], _Nested(fi, of))
        finally:
            self.stack.pop()
        for s, sig in res:
            s.env = {**saved, **{k: s.env[k] for k in shared if k in s.env}}
            if sig is None:
                out.append((s, NONE, None))
            elif sig[0] == "return":
                out.append((s, sig[1], None))
            elif sig[0] == "raise":
                out.append((s, None, sig[1]))
        return out

    def construct(self, f, args, kws, st, func, node):
        c = self._cls(f)
        init = c.find("__init__")
        if init is not None and self.want_inline(init) and init.cls in c.mro and (
                f"{c.name}" not in self.pol.opaque):
            n = st.occ.get(("new", c.name), 0)
            st.occ[("new", c.name)] = n + 1
            obj = ("new", c.name, n)
            self.exact[obj] = c
            self.types[obj] = ("cls", c)
            self.emit(st, "new", c.name, None, {}, obj, func, node)
            return [(s, obj if not x else None, x) for s, _, x in
                    self.inline(init, obj, args, kws, st, func, node)]
        if init is not None:
            b = self.bind(init, ("self",), args, kws, st)
        else:
            b = None
        if b is None:
            b = {str(i): a for i, a in enumerate(args)}
            b.update({n: v for n, v in kws})
        else:
            b.pop(init.params()[0][0], None)
        sargs = {k: self.snap(v, st) for k, v in b.items()}
        fz = tuple(sorted(sargs.items(), key=lambda p: p[0]))
        key = ("occ", c.name, fz)
        n = st.occ.get(key, 0)
        st.occ[key] = n + 1
        res = ("call", f, (), fz, n)
        self.types[res] = ("cls", c)
        ev = self.emit(st, "call", c.name, None, sargs, res, func, node)
        out = self.implicit(st, func, node, ev)
        out.append((st, res, None))
        return out

    def ext_call(self, f, recv, args, kws, st, func, node, name=None, pure=False):
        sa = [self.snap(a, st) for a in args]
        sk = []
        for n, v in kws:
            sk.append((n, self.snap(v, st)))
        d = {str(i): a for i, a in enumerate(sa)}
        for n, v in sk:
            if n == "**":
                d["**"] = v if "**" not in d else ("tuple", (d["**"], v))
            else:
                d[n] = v
        fs = self.snap(f, st)
        skt = tuple(sorted(sk, key=lambda p: (p[0], repr(p[1]))))
        if pure:
            n = 0
        else:
            key = ("occ", fs, tuple(sa), skt)
            n = st.occ.get(key, 0)
            st.occ[key] = n + 1
        res = ("call", fs, tuple(sa), skt, n)
        if pure:
            return [(st, res, None)]
        ev = self.emit(st, "call", name or tstr(f), self.snap(recv, st) if recv is not None else None,
                       d, res, func, node)
        refs = [a for a in list(args) + [v for _, v in kws] if isinstance(a, tuple) and a and a[0] == "ref"]
        if refs:
            ev.x = dict(ev.x or {}, refs=refs)
        out = self.implicit(st, func, node, ev)
        out.append((st, res, None))
        return out

    MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "update",
                "setdefault", "add", "discard", "popitem", "sort", "reverse",
                "delete_if_exists", "__setitem__", "__delitem__", "shuffle"}

    def method_call(self, f, args, kws, st, func, node):
        base, name = f[1], f[2]
        fi = self.method_of(base, name)
        if fi is not None:
            return self.call_func(fi, base, args, kws, st, func, node)
        if name == "__setitem__" and len(args) == 2:
            return [(a, NONE, s[1] if s else None) for a, s in
                    self.setitem(base, args[0], args[1], st, func, node)]
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(base, args[0], st, func, node)
        if name in ("items", "keys", "values", "copy") and not args and not kws:
            return [(st, ("call", f, (), (), 0), None)]
        if name == "format" and is_c(base):
            return [(st, ("call", f, tuple(self.snap(a, st) for a in args),
                          tuple((n, self.snap(v, st)) for n, v in kws), 0), None)]
        if name in PURE_METHODS and (args or kws or name != "join") and not self._is_effect_base(base):
            return self.ext_call(f, base, args, kws, st, func, node, name="." + name, pure=True)
        out = self.ext_call(f, base, args, kws, st, func, node, name="." + name)
        bs = self.snap(base, st)
        if name in self.MUTATORS:
            for a, _, _ in out:
                self.bump(a, bs)
        return out

    def _is_effect_base(self, base):
        return False

    # ---- builtins
    def builtin(self, f, args, kws, st, func, node):
        n = f[1]
        star = any(a[0] == "*" for a in args) or any(k == "**" for k, _ in kws)
        h = getattr(self, "b_" + n.replace(".", "_"), None)
        if h is not None and not (star and n not in ("dict",)):
            r = h(args, kws, st, func, node)
            if r is not None:
                return r
        if n in PURE_EXT:
            return self.ext_call(f, None, args, kws, st, func, node, pure=True)
        return self.ext_call(f, None, args, kws, st, func, node, name=n)

    def b_isinstance(self, args, kws, st, func, node):
        if len(args) != 2:
            return None
        x, c = args
        names = []
        cs = list(c[1]) if c[0] == "tuple" else [c]
        for y in cs:
            if y[0] in ("cls", "ext"):
                names.append(y[1])
            elif y[0] == "op" and y[1] == "|":
                for z in (y[2], y[3]):
                    names.append(z[1] if z[0] in ("cls", "ext") else tstr(z))
            else:
                names.append(tstr(self.snap(y, st)))
        xs = self.snap(x, st)
        ts = []
        for n in names:
            t = self._isinst(xs, n)
            ts.append(t)
        if any(t == TRUE for t in ts):
            return [(st, TRUE, None)]
        ts = [t for t in ts if t != FALSE]
        if not ts:
            return [(st, FALSE, None)]
        t = ts[0] if len(ts) == 1 else ("or", tuple(ts))
        return [(st, t, None)]

    def _isinst(self, x, n):
        if is_c(x):
            if n == x[1] or (n == "int" and x[1] == "bool"):
                return TRUE
            return FALSE
        c = self.exact.get(x)
        if c is None and x[0] == "new":
            c = self._clsname(x[1])
        if c is None and x[0] == "call" and x[1][0] == "cls":
            c = self._cls(x[1])
        if c is not None:
            k = self.P.class_by_name(n)
            if k is not None:
                return C(c.is_sub(k))
            if any(b.split(".")[-1] == n.split(".")[-1] for b in c.ext_bases()):
                return TRUE
            if n in ("str", "list", "dict", "int", "tuple", "set") and not c.ext_bases():
                return FALSE
        if x[0] in ("list", "dict", "set", "tuple") and n in ("list", "dict", "set", "tuple", "str", "int"):
            return C(x[0] == n)
        if x[0] == "cat":
            return C(n == "str")
        return ("isinstance", x, n)

    def b_type(self, args, kws, st, func, node):
        if len(args) == 1:
            return [(st, self.type_of(args[0], st), None)]

    def b_hasattr(self, args, kws, st, func, node):
        if len(args) != 2 or not is_c(args[1]):
            return None
        base, name = args[0], args[1][2]
        v = st.heap.get((base, name))
        if v is not None:
            if v[0] == "mu":
                return [(st, ("hasattr", self.snap(base, st), name), None)]
            return [(st, C(v[0] != "deleted"), None)]
        c = self.exact.get(base)
        if c is not None:
            for k in c.mro:
                if isinstance(k, ClassInfo) and (name in k.methods or name in k.attrs):
                    return [(st, TRUE, None)]
        return [(st, ("hasattr", self.snap(base, st), name), None)]

    def b_getattr(self, args, kws, st, func, node):
        if len(args) == 2 and is_c(args[1]):
            return self.getattr(args[0], args[1][2], st, func, node)
        if len(args) == 3 and is_c(args[1]):
            out = []
            for a, t, x in self.b_hasattr(args[:2], [], st, func, node):
                for b, tr in self.truth(t, a):
                    if tr:
                        out += self.getattr(args[0], args[1][2], b, func, node)
                    else:
                        out.append((b, args[2], None))
            return out

    def b_setattr(self, args, kws, st, func, node):
        if len(args) == 3 and is_c(args[1]):
            self.setattr(args[0], args[1][2], args[2], st, func, node)
            return [(st, NONE, None)]

    def b_delattr(self, args, kws, st, func, node):
        if len(args) == 2 and is_c(args[1]):
            st.heap[(args[0], args[1][2])] = ("deleted",)
            self.emit(st, "delattr", args[1][2], self.snap(args[0], st), {}, None, func, node)
            return [(st, NONE, None)]

    def b_list(self, args, kws, st, func, node):
        if not args:
            return [(st, self.new_cell(st, "list"), None)]
        if args[0][0] in ("ref", "tuple"):
            return [(st, self.new_cell(st, "list", self.iter_parts(args[0], st)), None)]
        return None

    def b_set(self, args, kws, st, func, node):
        if not args:
            return [(st, self.new_cell(st, "set"), None)]
        if args[0][0] in ("ref", "tuple"):
            return [(st, self.new_cell(st, "set", self.iter_parts(args[0], st)), None)]
        return None

    def b_tuple(self, args, kws, st, func, node):
        if not args:
            return [(st, ("tuple", ()), None)]
        if args[0][0] == "tuple":
            return [(st, args[0], None)]
        if args[0][0] == "ref":
            lit = self.literal_elems(args[0], st)
            if lit is not None:
                return [(st, ("tuple", tuple(lit)), None)]
        return None

    def b_dict(self, args, kws, st, func, node):
        r = self.new_cell(st, "dict")
        for a in args:
            if a[0] == "*":
                st.imp("dict(*)")
                continue
            self.dict_update(st, r, a)
        for n, v in kws:
            if n == "**":
                self.dict_update(st, r, v)
            else:
                self.cell_setitem(st, r, C(n), v)
        return [(st, r, None)]

    def b_copy_copy(self, args, kws, st, func, node):
        if args and args[0][0] == "ref":
            c = st.cells[args[0]]
            return [(st, self.new_cell(st, c.kind, c.parts), None)]
    b_copy_deepcopy = b_copy_copy

    def b_str(self, args, kws, st, func, node):
        if len(args) == 1 and is_c(args[0]):
            return [(st, C(str(args[0][2])), None)]
        if len(args) == 1 and self._stringy(args[0]):
            return [(st, args[0], None)]
        return None

    def b_len(self, args, kws, st, func, node):
        if len(args) == 1:
            lit = self.literal_elems(args[0], st)
            if lit is not None and args[0][0] != "call":
                return [(st, C(len(lit)), None)]

    def b_bool(self, args, kws, st, func, node):
        if len(args) == 1:
            if self._is_boolish(args[0]):
                return [(st, args[0], None)]
            if is_c(args[0]):
                return [(st, C(bool(args[0][2])), None)]

    def b_sorted(self, args, kws, st, func, node):
        return None

    def b_sys_exc_info(self, args, kws, st, func, node):
        if st.excs:
            e = st.excs[-1]
            return [(st, ("tuple", (("exctype", e), e, ("exctb", e))), None)]
        a = ("exc", None, ("ambient",))
        return [(st, ("tuple", (("exctype", a), a, ("exctb", a))), None)]

    def b_sys_exception(self, args, kws, st, func, node):
        return [(st, st.excs[-1] if st.excs else ("exc", None, ("ambient",)), None)]

    # ---- methods of mutable literals
    def cell_method(self, ref, name, args, kws, st, func, node):
        c = st.cells[ref]
        k = c.kind
        if k in ("list", "set"):
            if name in ("append", "add") and len(args) == 1:
                st.cells[ref] = Cell(k, c.parts + (("one", args[0]),))
                return [(st, NONE, None)]
            if name in ("extend", "update") and len(args) == 1:
                st.cells[ref] = Cell(k, c.parts + self.iter_parts(args[0], st))
                return [(st, NONE, None)]
            if name == "copy":
                return [(st, self.new_cell(st, k, c.parts), None)]
            if name == "clear":
                st.cells[ref] = Cell(k, ())
                return [(st, NONE, None)]
            if name in ("sort", "reverse"):
                self.emit(st, "mutate", name, self.snap(ref, st), {}, None, func, node)
                st.cells[ref] = Cell(k, (("*", (name + "ed", self.snap(ref, st))),)) \
                    if False else c
                return [(st, NONE, None)]
            if name == "insert" and len(args) == 2 and args[0] == C(0):
                if st.loops:
                    self.prepended.add(ref)
                st.cells[ref] = Cell(k, (("one", args[1]),) + c.parts)
                return [(st, NONE, None)]
            if name == "pop" and not args and c.parts and c.parts[-1][0] == "one":
                v = c.parts[-1][1]
                st.cells[ref] = Cell(k, c.parts[:-1])
                return [(st, v, None)]
            if name in ("union", "difference", "intersection", "symmetric_difference"):
                op = {"union": "|", "difference": "-", "intersection": "&",
                      "symmetric_difference": "^"}[name]
                v = self.snap(ref, st)
                for a in args:
                    v = ("op", op, v, self.snap(a, st))
                return [(st, v, None)]
            if name in ("index", "count", "issubset", "issuperset", "isdisjoint"):
                return self.ext_call(("attr", ref, name), None, args, kws, st, func, node, pure=True)
            s = self.snap(ref, st)
            st.cells[ref] = Cell(k, c.parts + (("unknown",),))
            return self.ext_call(("attr", s, name), s, args, kws, st, func, node, name="." + name)
        if k == "dict":
            if name == "update":
                for a in args:
                    self.dict_update(st, ref, a)
                for n, v in kws:
                    if n == "**":
                        self.dict_update(st, ref, v)
                    else:
                        self.cell_setitem(st, ref, C(n), v)
                return [(st, NONE, None)]
            if name == "copy":
                return [(st, self.new_cell(st, k, c.parts), None)]
            if name in ("items", "keys", "values"):
                return [(st, ("call", ("attr", ref, name), (), (), 0), None)]
            if name == "get" and args:
                v = self.item(ref, args[0], st)
                if v[0] != "item":
                    return [(st, v, None)]
                return [(st, ("call", ("attr", self.snap(ref, st), "get"),
                              tuple(self.snap(a, st) for a in args), (), 0), None)]
            if name == "pop" and args and is_c(args[0]):
                v = self.item(ref, args[0], st)
                ps = tuple(p for p in c.parts if not (
                    p[0] == "kv" and self.snap(p[1], st) == args[0]))
                if len(ps) == len(c.parts):
                    ps += (("del", args[0]),)
                st.cells[ref] = Cell(k, ps)
                return [(st, v, None)]
            if name == "setdefault" and len(args) == 2:
                v = self.item(ref, args[0], st)
                if v[0] != "item":
                    return [(st, v, None)]
                if all(p[0] == "kv" for p in c.parts):
                    self.cell_setitem(st, ref, args[0], args[1])
                    return [(st, args[1], None)]
            s = self.snap(ref, st)
            st.cells[ref] = Cell(k, c.parts + (("unknown",),))
            return self.ext_call(("attr", s, name), s, args, kws, st, func, node, name="." + name)
        st.imp("cell method")
        return [(st, ("unknown", name), None)]


# method calls on cells are routed here
_old_getattr = Interp.getattr


def _getattr(self, base, name, st, func, node):
    if base[0] == "ref":
        return [(st, ("cellattr", base, name), None)]
    return _old_getattr(self, base, name, st, func, node)


Interp.getattr = _getattr
_old_call = Interp.call


def _call(self, f, args, kws, st, func, node):
    if f[0] == "cellattr":
        return self.cell_method(f[1], f[2], args, kws, st, func, node)
    return _old_call(self, f, args, kws, st, func, node)


Interp.call = _call


_STORES = {}


def _stores(node):
    """Names bound in a function, nested ones excluded."""
    if node not in _STORES:
        out, todo = set(), list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            todo += list(ast.iter_child_nodes(n))
        _STORES[node] = out
    return _STORES[node]


class _Nested:
    """Function context of a nested function: its own code, the outer class."""
    def __init__(self, fi, outer):
        self.mod, self.node, self.cls, self.outer = fi.mod, fi.node, outer.cls, outer
        self.qual = f"{outer.qual}.<locals>.{fi.name}"
        self.fq = f"{fi.mod.name}:{self.qual}"


def _neg(v):
    if v[0] == "not":
        return v[1]
    if is_c(v):
        return C(not v[2])
    return ("not", v)


def _fix(node, src):
    for n in ast.walk(node):
        if not hasattr(n, "lineno"):
            n.lineno = src.lineno
            n.col_offset = src.col_offset
            n.end_lineno = src.lineno
            n.end_col_offset = src.col_offset


def _as_load(t):
    if isinstance(t, ast.Name):
        r = ast.Name(t.id, ast.Load())
    elif isinstance(t, ast.Attribute):
        r = ast.Attribute(t.value, t.attr, ast.Load())
    else:
        r = ast.Subscript(t.value, t.slice, ast.Load())
    return ast.copy_location(r, t)


_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
        ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
        ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
_FOLD = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
         "//": lambda a, b: a // b, "%": lambda a, b: a % b, "/": lambda a, b: a / b,
         "**": lambda a, b: a ** b if abs(b) < 20 else None, "<<": lambda a, b: a << b,
         ">>": lambda a, b: a >> b, "|": lambda a, b: a | b, "&": lambda a, b: a & b,
         "^": lambda a, b: a ^ b}

PURE_METHODS = {"replace", "split", "strip", "lstrip", "rstrip", "join", "lower", "upper",
                "startswith", "endswith", "find", "rfind", "splitlines", "format", "keys",
                "title", "capitalize", "encode", "decode", "partition", "rpartition",
                "count", "index", "isdigit", "zfill", "rsplit"}
PURE_REPO = {"get_hash_signature", "get_base32_hash_signature", "get_base16_hash_signature",
             "convert_int_to_base32", "convert_base16_to_base32", "convert_base_32_to_int",
             "get_node_signature", "get_long_infoname", "get_function_name_from_source"}
VOLATILE_PROPS = {"ready", "execution_requested", "needs_execution", "can_be_executed",
                  "_ready_in_current_portal", "_ready_in_noncurrent_portals"}

from .api import API


def is_api(f: FuncInfo):
    """Public function of the pinned tree (kept opaque by default)."""
    return f.qual in API
