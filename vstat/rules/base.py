"""Rule infrastructure: properties, obligations, path queries, decision tables."""
from __future__ import annotations
import time
from ..project import Project, FuncInfo, ClassInfo, AnalysisBroken
from ..engine import (Interp, Policy, TooManyPaths, Path, Ev, flat_events, tstr,
                      subterms, contains, C, NONE, TRUE, FALSE, is_c, cat)


def terms(t):
    """All proper terms inside t."""
    for x in subterms(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x


PROPS = {}          # id -> list of (rule name, text, function)


def rule(pid, name, text):
    def deco(f):
        PROPS.setdefault(pid, []).append((name, text, f))
        return f
    return deco


class Stop(Exception):
    """The rule cannot go on (recorded as undecided)."""


class Ob:
    __slots__ = ("rule", "construct", "status", "where", "msg", "n", "path")

    def __init__(self, rule, construct, status, where, msg, n=0, path=None):
        self.rule, self.construct, self.status = rule, construct, status
        self.where, self.msg, self.n, self.path = where, msg, n, path

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


_CACHE = {}


class PathSet:
    def __init__(self, ctx, func, interp, paths, why=None):
        self.ctx, self.func, self.it, self.paths, self.why = ctx, func, interp, paths, why

    def __iter__(self):
        return iter(self.paths or ())

    @property
    def where(self):
        return self.func.loc()

    def returns(self):
        return [p for p in self if p.kind == "return"]

    def raises(self):
        return [p for p in self if p.kind == "raise"]


class Ctx:
    def __init__(self, P, pid):
        self.P, self.pid = P, pid
        self.obs = []
        self.rule = ""
        self.funcs = {}          # fq -> number of paths
        self.sites = 0

    # ---------------------------------------------------------- analysis
    def run(self, func, cls=None, params=None, ptypes=None, setup=None, **pol) -> PathSet:
        if isinstance(func, str):
            func = self.P.func(func)
        if isinstance(cls, str):
            cls = self.P.cls(cls)
        key = None
        try:
            key = (func.fq, cls.fq if cls else None, repr(params), repr(ptypes), repr(setup),
                   repr(sorted((k, sorted(v) if isinstance(v, (set, tuple, list)) else repr(v))
                               for k, v in pol.items())))
        except Exception:
            key = None
        if key is not None and key in _CACHE and setup is None:
            f, it, ps, why = _CACHE[key]
        else:
            it = Interp(self.P, Policy(**pol))
            why = None
            try:
                ps = it.run(func, cls=cls, params=params, ptypes=ptypes, setup=setup)
            except TooManyPaths as e:
                ps, why = None, f"too many paths in {e}"
            except RecursionError:
                ps, why = None, "recursion limit"
            if key is not None and setup is None:
                _CACHE[key] = (func, it, ps, why)
        self.funcs[func.fq] = max(self.funcs.get(func.fq, 0), len(ps) if ps else 0)
        for fq in it.inlined:
            self.funcs.setdefault(fq, 0)
        return PathSet(self, func, it, ps, why)

    # ---------------------------------------------------------- obligations
    def ob(self, construct, status, where, msg, n=1, path=None):
        self.obs.append(Ob(self.rule, construct, status, where, msg, n, path))

    def check(self, construct, ok, where, msg, n=1):
        """ok: True | False | None (undecided)"""
        self.ob(construct, {True: "ok", False: "violated", None: "undecided"}[ok],
                where, msg, n)

    def forall(self, construct, ps, pred, msg, sel=None, need=0, paths=None):
        """Every (selected) path satisfies pred (True / False / None or a text
        describing what is wrong)."""
        if ps.paths is None:
            self.ob(construct, "undecided", ps.where, ps.why)
            return None
        sel_paths = [p for p in (paths if paths is not None else ps.paths)
                     if sel is None or sel(p)]
        bad = und = None
        for p in sel_paths:
            r = pred(p)
            if r is True:
                continue
            txt = r if isinstance(r, str) else msg
            if r is None or p.imprecise:
                und = und or (p, txt)
            else:
                if bad is None or len(p.events) < len(bad[0].events):
                    bad = (p, txt)
        if bad:
            self.ob(construct, "violated", ps.where, bad[1], len(sel_paths), bad[0].show())
            return False
        if und:
            self.ob(construct, "undecided", ps.where, und[1], len(sel_paths))
            return None
        if len(sel_paths) < need:
            self.ob(construct, "undecided", ps.where,
                    f"only {len(sel_paths)} relevant paths: {msg}", len(sel_paths))
            return None
        self.ob(construct, "ok", ps.where, msg, len(sel_paths))
        return True

    def exists(self, construct, ps, pred, msg):
        """Some path satisfies pred."""
        if ps.paths is None:
            self.ob(construct, "undecided", ps.where, ps.why)
            return None
        rs = [pred(p) for p in ps.paths]
        if any(r is True for r in rs):
            self.ob(construct, "ok", ps.where, msg, len(rs))
            return True
        if any(r is None for r in rs) or any(p.imprecise for p in ps.paths):
            self.ob(construct, "undecided", ps.where, msg, len(rs))
            return None
        self.ob(construct, "violated", ps.where, msg, len(rs),
                "no path of %s does this:\n" % ps.func.qual
                + "\n".join(p.show() for p in ps.paths[:4]))
        return False

    def table(self, construct, ps, rows, atom, outcome, msg):
        """Decision table.

        rows: list of (label, valuation dict, expected).  For each row the paths
        whose guards are all consistent with the valuation must satisfy
        outcome(path, expected) (True / False / None / text).  atom(term, val)
        gives the value of a term under the valuation, or UNK.
        """
        if ps.paths is None:
            self.ob(construct, "undecided", ps.where, ps.why)
            return
        for label, val, exp in rows:
            cand = [p for p in ps.paths if consistent(p, lambda t: atom(t, val))]
            c = f"{construct}: {label}"
            if not cand:
                self.ob(c, "undecided", ps.where, f"no path for {label}")
                continue
            def judge(p):
                r = outcome(p, exp)
                if r is not True and r is not None and unsure(p, lambda t: atom(t, val)):
                    return None
                return r
            self.forall(c, ps, judge, f"{label}: {msg}", paths=cand)


# -------------------------------------------------------------- evaluation
class _Unk:
    def __repr__(self):
        return "UNK"


UNK = _Unk()


def teval(t, atom):
    """Value of a term when atom() fixes some of its parts."""
    v = atom(t)
    if v is not UNK:
        return v
    k = t[0]
    if k == "c":
        return t[2]
    if k == "not":
        v = teval(t[1], atom)
        return UNK if v is UNK else (not v)
    if k == "truthy":
        v = teval(t[1], atom)
        return UNK if v is UNK else bool(v)
    if k == "isnone":
        v = teval(t[1], atom)
        return UNK if v is UNK else v is None
    if k in ("eq", "is", "lt"):
        a, b = teval(t[1], atom), teval(t[2], atom)
        if a is UNK or b is UNK:
            return UNK
        try:
            return a == b if k != "lt" else a < b
        except Exception:
            return UNK
    if k == "in":
        a, b = teval(t[1], atom), teval(t[2], atom)
        if a is UNK or b is UNK:
            return UNK
        try:
            return a in b
        except Exception:
            return UNK
    if k in ("and", "or"):
        vs = [teval(x, atom) for x in t[1]]
        if k == "and":
            if any(v is not UNK and not v for v in vs):
                return False
            return UNK if any(v is UNK for v in vs) else True
        if any(v is not UNK and v for v in vs):
            return True
        return UNK if any(v is UNK for v in vs) else False
    if k == "op" and len(t) == 4:
        a, b = teval(t[2], atom), teval(t[3], atom)
        if a is UNK or b is UNK:
            return UNK
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b,
                    "**": lambda: a ** b if abs(b) < 64 else 1 / 0,
                    "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b,
                    "|": lambda: a | b, "^": lambda: a ^ b}[t[1]]()
        except Exception:
            return UNK
    if k == "cat":
        vs = [teval(x, atom) for x in t[1]]
        return UNK if any(v is UNK for v in vs) else "".join(str(v) for v in vs)
    if k == "item" and len(t) > 2:
        a = teval(t[1], atom)
        if a is UNK:
            return UNK
        if t[2][0] == "slice":
            ks = [teval(x, atom) if x is not None else None for x in t[2][1:4]]
            if any(v is UNK for v in ks):
                return UNK
            b = slice(*ks)
        else:
            b = teval(t[2], atom)
            if b is UNK:
                return UNK
        try:
            return a[b]
        except Exception:
            return UNK
    if k == "call" and t[1][0] == "attr" and t[1][2] in (
            "lower", "upper", "casefold", "strip", "index", "find", "rindex", "zfill", "join", "lstrip", "replace", "rstrip", "rfind",
            "startswith", "endswith", "split", "rsplit", "partition", "rpartition", "removeprefix", "removesuffix",
            "splitlines", "isidentifier", "count", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isupper", "islower", "isascii",
            "ljust", "rjust", "swapcase") and not t[3]:
        a = teval(t[1][1], atom)
        vs = [teval(x, atom) for x in t[2]]
        if not isinstance(a, str) or any(v is UNK for v in vs):
            return UNK
        try:
            return getattr(a, t[1][2])(*vs)
        except Exception:
            return UNK
    if k == "call" and t[1][0] == "attr" and t[1][2] == "get" and len(t[2]) in (1, 2) and not t[3]:
        a = teval(t[1][1], atom)
        vs = [teval(x, atom) for x in t[2]]
        return UNK if not isinstance(a, dict) or any(v is UNK for v in vs) else a.get(*vs)
    if k == "call" and t[1][0] == "ext" and t[1][1] in ("divmod", "int", "ord", "chr", "pow") and not t[3]:
        vs = [teval(x, atom) for x in t[2]]
        if any(v is UNK for v in vs):
            return UNK
        try:
            return {"divmod": divmod, "int": int, "ord": ord, "chr": chr, "pow": pow}[t[1][1]](*vs)
        except Exception:
            return UNK
    if k == "call" and t[1] == ("ext", "int") and len(t[2]) == 1 and len(t[3]) == 1 and t[3][0][0] == "base":
        return teval((k, t[1], (t[2][0], t[3][0][1]), (), 0), atom)
    if k == "call" and t[1][0] == "ext" and len(t[2]) == 1 and not t[3]:
        a = teval(t[2][0], atom)
        if a is UNK:
            return UNK
        try:
            return {"len": len, "bool": bool, "int": int, "float": float, "str": str,
                    "abs": abs, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
                    "sorted": sorted}[t[1][1]](a)
        except Exception:
            return UNK
    if k == "call" and t[1] == ("ext", "round") and len(t[2]) in (1, 2) and not t[3]:
        vs = [teval(a, atom) for a in t[2]]
        try:
            return UNK if any(v is UNK for v in vs) else round(*vs)
        except Exception:
            return UNK
    if k == "call" and t[1][0] == "ext" and t[1][1] in ("max", "min") and len(t[2]) > 1:
        vs = [teval(a, atom) for a in t[2]]
        if any(v is UNK for v in vs):
            return UNK
        return {"max": max, "min": min}[t[1][1]](vs)
    if k == "any" and len(t) == 3 and isinstance(t[1], tuple) and t[2][0] != "unknown":
        zipped = t[2][2] if t[2][0] == "call" and t[2][1] == ("ext", "zip") and not t[2][3] else None
        srcs = [teval(x, atom) for x in (zipped or (t[2],))]
        if any(not isinstance(x, (tuple, list)) for x in srcs):
            return UNK
        keys = [("elem", x) for x in (zipped or (t[2],))]
        hit = False
        for vals in zip(*srcs):
            def at(x, vals=vals):
                return vals[keys.index(x)] if x in keys else atom(x)
            for alt in t[1]:
                if len(alt) != 3:
                    return UNK
                gs = [(teval(c, at), b) for c, b in (*alt[0], *alt[1])]
                v = teval(alt[2], at)
                if any(x is not UNK and bool(x) != b for x, b in gs):
                    continue
                if v is UNK or any(x is UNK for x, _ in gs):
                    return UNK
                hit = hit or bool(v)
        return hit
    if k in ("tuple", "list") :
        if k == "list" and any(x[0] not in ("one", "*") for x in t[1]):
            return UNK
        vs = []
        for x in t[1]:
            v = teval(x[1] if k == "list" else x, atom)
            if v is UNK:
                return UNK
            if k == "list" and x[0] == "*":
                if not isinstance(v, (list, tuple)):
                    return UNK
                vs += list(v)
            else:
                vs.append(v)
        return vs if k == "list" else tuple(vs)
    return UNK


def consistent(p, atom):
    for c, b, _ in p.guards:
        v = teval(c, atom)
        if v is not UNK and bool(v) != b:
            return False
    return True


def homes(ctx, f, own=()):
    """The named operations of the library (see api.py) of which f is a part: f
    itself, or all those that reach the helper f through other helpers."""
    from ..callgraph import Graph
    from ..api import API
    P = ctx.P
    if f.qual in API or f.name in own:
        return {f}
    if not hasattr(P, "_callgraph"):
        P._callgraph = Graph(P)
    if not hasattr(P, "_callers"):
        P._callers = {}
        for g, es in P._callgraph.edges.items():
            for h in es:
                P._callers.setdefault(h, set()).add(g)
    out, seen, todo = set(), {f}, [f]
    while todo:
        for g in P._callers.get(todo.pop(), ()):
            if g in seen:
                continue
            seen.add(g)
            if g.qual in API or g.name in own:
                out.add(g)
            else:
                todo.append(g)
    return out or {f}


def unsure(p, atom):
    """Does the path depend on the answer of an opaque function of the library
    about something the valuation fixes?"""
    for c, b, _ in p.guards:
        if teval(c, atom) is UNK:
            for t in terms(c):
                if t[0] == "call" and t[1][0] == "fn" and atom(t) is UNK and any(
                        atom(unver(x)) is not UNK for a in list(t[2]) + [v for k, v in t[3]] if isinstance(a, tuple) for x in [a]):
                    return True
    return False


def gconsistent(guards, atom):
    for g in guards:
        v = teval(g[0], atom)
        if v is not UNK and bool(v) != g[1]:
            return False
    return True


# -------------------------------------------------------------- event queries
def last(e):
    return e.name.split(".")[-1]


def failed(e):
    return bool((e.x or {}).get("failed"))


def events(p, into_loops=True):
    return list(flat_events(p.events if isinstance(p, Path) else p, into_loops))


def calls(p, *names, loops=True):
    """Successful or failed calls whose last name component is in names."""
    return [e for e in events(p, loops) if e.kind in ("call", "with_enter", "with_exit")
            and last(e) in names]


def kinds(p, *ks, loops=True):
    return [e for e in events(p, loops) if e.kind in ks]


def fn_name(t):
    """Last component of the name of what a call term calls (or None)."""
    if not (isinstance(t, tuple) and t and t[0] == "call"):
        return None
    f = t[1]
    if f[0] in ("fn", "prop"):
        return f[1].split(":")[-1].split(".")[-1]
    if f[0] == "ext":
        return f[1].split(".")[-1]
    if f[0] in ("attr", "cellattr"):
        return f[2]
    if f[0] == "cls":
        return f[1]
    return None


def call_arg(t, name, pos=None):
    """Argument of a call term."""
    for n, v in t[3]:
        if n == name:
            return v
    if pos is not None and pos < len(t[2]):
        return t[2][pos]
    return None


def is_attr(t, name, base=None):
    return (isinstance(t, tuple) and t and t[0] == "attr" and t[2] == name
            and (base is None or t[1] == base))


def has_attr(t, name):
    return any(is_attr(x, name) for x in subterms(t) if isinstance(x, tuple))


def has_call(t, *names):
    return any(fn_name(x) in names for x in subterms(t)
               if isinstance(x, tuple) and x and x[0] == "call")


SELF = ("sym", "self")


def sym(n):
    return ("sym", n)


def strip_wrappers(t, names=("list", "tuple", "iter", "sorted", "reversed", "set", "frozenset")):
    while isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "ext" \
            and t[1][1] in names and len(t[2]) >= 1:
        t = t[2][0]
    return t


# -------------------------------------------------------------- structure
def timeline(p):
    """Guards and top level events in the order they happen: ('g', cond, bool) / ('e', ev)."""
    gi, j = list(p.guards), 0
    for i, e in enumerate(p.events):
        while j < len(gi) and gi[j][2] <= i:
            yield ("g", gi[j][0], gi[j][1])
            j += 1
        yield ("e", e, None)
    for g in gi[j:]:
        yield ("g", g[0], g[1])


def seq_items(t):
    """Items of a literal list/tuple term, or None."""
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple") and len(t[2]) == 1:
        return seq_items(t[2][0])
    if t[0] == "tuple":
        return list(t[1])
    if t[0] == "list":
        if all(x[0] == "one" for x in t[1]):
            return [x[1] for x in t[1]]
        return None
    if t[0] == "op" and t[1] == "+":
        a, b = seq_items(t[2]), seq_items(t[3])
        return None if a is None or b is None else a + b
    return None


def dict_parts(t):
    """(known {key: value}, [merged mappings]) of a dict term in order, or None."""
    if t[0] == "call" and t[1] == ("ext", "dict") and len(t[2]) == 1 and not t[3]:
        return dict_parts(t[2][0])
    if t[0] == "op" and t[1] == "|":
        a, b = dict_parts(t[2]), dict_parts(t[3])
        if a is None:
            a = ({}, [t[2]])
        if b is None:
            b = ({}, [t[3]])
        return ({**a[0], **b[0]}, a[1] + b[1])
    if t[0] != "dict":
        return None
    kv, st = {}, []
    for x in t[1]:
        if x[0] == "kv" and is_c(x[1]):
            kv[x[1][2]] = x[2]
        elif x[0] == "**":
            d = dict_parts(x[1])
            if d is None:
                st.append(x[1])
            else:
                kv.update(d[0])
                st += d[1]
        else:
            return None
    return kv, st


def loops(evs):
    """All loop events at any depth."""
    for e in evs:
        if e.kind == "loop":
            yield e
            for _, x, _ in e.x["iters"]:
                yield from loops(x)


def elem_src(t):
    """The collection t is a generic member of (through item/attr access), or None."""
    while True:
        if t[0] == "elem":
            return t[1]
        if t[0] == "item" and t[1][0] in ("elem", "item"):
            t = t[1]
            continue
        return None


def each_iter(evs, src_ok, ev_ok, exits=("next",)):
    """True if in `evs` there is a loop over a collection accepted by src_ok in
    every iteration of which an event accepted by ev_ok happens and which is not
    left early; False if such a loop exists but some iteration does not; None if
    there is no such loop."""
    found = None
    for e in evs:
        if e.kind != "loop":
            continue
        it = e.x["iter"]
        if it is not None and src_ok(it):
            ok = True
            for k, xs, gs in e.x["iters"]:
                if k not in exits or not any(ev_ok(x) for x in flat_events(xs)
                                             if not failed(x)):
                    ok = False
            if ok and e.x["iters"]:
                return True
            if any(ev_ok(x) for _, xs, _ in e.x["iters"] for x in flat_events(xs)):
                found = False
        else:
            rs = [each_iter(xs, src_ok, ev_ok, exits) for k, xs, gs in e.x["iters"]]
            if rs and all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                found = False
    return found


def entered_src(t):
    """t enumerates all entered portals: True; a part / other portals: False; else None."""
    u = strip_wrappers(t)
    n = fn_name(u)
    if n in ("get_entered_portals", "_entered_portals"):
        return True
    if n in ("get_noncurrent_portals", "_noncurrent_portals"):
        return False
    if n == "zip" and u[0] == "call" and u[1] == ("ext", "zip") and any(entered_src(x) is not None for x in u[2]):
        rest = [x for x in u[2] if entered_src(x) is None and fn_name(x) not in ("repeat", "count", "cycle")]
        return False if rest or any(entered_src(x) is False for x in u[2]) else True
    if u[0] == "call" and u[1][0] == "attr" and u[1][2] == "values" and u[1][1][0] == "dict" and any(
            x[0] == "kveach" and entered_src(x[3]) and x[1] != x[2] and contains(x[1], x[2]) and (x[1][0] == "typeof" or x[1][0] == "attr")
            for x in u[1][1][1]):
        return False
    if u[0] in ("item", "list", "tuple") and has_call(
            u, "get_entered_portals", "_entered_portals", "get_most_recently_entered_portal",
            "get_best_portal_to_use"):
        return False
    return None


def unver(t):
    """The term without the versions of item reads."""
    if not isinstance(t, tuple):
        return t
    t = tuple(unver(x) for x in t)
    if len(t) == 4 and t[0] in ("item", "attr") and isinstance(t[3], int):
        return t[:3]
    return t
