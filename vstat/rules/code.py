"""Source code as data: augmented code, decorators, what may run it (C43, C44, C50)."""
import ast
from .base import *
from .ordinary import ext_call
from .pure import PF, cls_call, own, restored
from .data import normal_dict

ISLAND = ("item", ("attr", ("attr", SELF, "portal"), "known_functions"), ("attr", SELF, "island_name"))


def members(t, out=None):
    """Sources a list/set term is made of: [(kind, term, conditions)], or None."""
    out = [] if out is None else out
    if ext_call(t, "sorted", "list", "tuple", "set", "frozenset", "iter") and t[2]:
        return members(t[2][0], out)
    if t[0] == "op" and t[1] in ("+", "|"):
        return None if members(t[2], out) is None or members(t[3], out) is None else out
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("copy", "union") and not t[3]:
        for x in (t[1][1],) + tuple(t[2]):
            if members(x, out) is None:
                return None
        return out
    if t[0] in ("list", "set", "tuple"):
        for x in t[1]:
            if t[0] == "tuple" or x[0] == "one":
                out.append(("one", unver(x if t[0] == "tuple" else x[1]), ()))
            elif x[0] == "each":
                out.append(("each", unver(x[1]), x[3]))
            elif x[0] == "*":
                if members(x[1], out) is None:
                    return None
            else:
                return None
        return out
    if t[0] in ("attr", "item", "call", "mu", "sym"):
        out.append(("all", unver(t), ()))
        return out
    return None


def ordered(t):
    """True: the order of iteration is determined by the content; False: it is not."""
    if ext_call(t, "sorted"):
        k = dict(t[3]).get("key", NONE)
        if k in (NONE, ("ext", "str")):
            return True
        return ordered(t[2][0]) is True and None if k != ("ext", "len") else False
    if ext_call(t, "list", "tuple", "iter", "reversed") and t[2]:
        return ordered(t[2][0])
    if ext_call(t, "set", "frozenset") or t[0] == "set":
        return False
    if t[0] == "op" and t[1] in ("|", "-", "&", "^"):
        return False
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("union", "difference", "intersection"):
        return False
    if t[0] in ("list", "attr", "tuple"):
        return True
    if t[0] == "op" and t[1] == "+":
        a, b = ordered(t[2]), ordered(t[3])
        return False if a is False or b is False else (True if a and b else None)
    return None


def pieces(v, it):
    """Text built from a collection: [(collection or None, parts, conditions)] or None."""
    if v[0] == "mu":
        res = []
        for x in it.mus.get(v, ()):
            if x == C(""):
                continue
            if x == v:
                continue
            if x[0] == "cat" and x[1] and x[1][0] == v:
                res.append(x[1][1:])
            elif x[0] == "op" and x[1] == "+" and x[2] == v:
                res.append((x[3],))
            else:
                return None
        return [(None, r, ()) for r in res]
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "join" and is_c(v[1][1]) and len(v[2]) == 1:
        a = v[2][0]
        if a[0] == "list":
            return [(x[2], text_parts(x[1]) + (v[1][1],), x[3]) for x in a[1] if x[0] == "each"] if all(
                x[0] == "each" for x in a[1]) else None
    if v[0] == "cat":
        rest = [x for x in v[1] if not is_c(x)]
        if len(rest) == 1:
            return pieces(rest[0], it)
    return None


def text_parts(t):
    if t[0] == "cat":
        return tuple(t[1])
    if t[0] == "op" and t[1] == "+":
        return text_parts(t[2]) + text_parts(t[3])
    return (t,)


def flat_parts(ps):
    out = ()
    for x in ps:
        out += text_parts(x) if x[0] in ("cat", "op") else (x,)
    return out


def new_text(p, who):
    """Events that set the augmented code"""
    return [e for e in events(p) if e.kind == "setattr" and e.name == "_augmented_source_code" and e.args["value"] != NONE]


@rule("C43", "content", "the augmented code holds everything needed to execute the function")
def c43_content(ctx):
    c = ctx.P.cls(PF)
    f = c.find("_complete_fn_registration")
    ps = ctx.run(f, cls=c, exc="none", opaque=("AutonomousFn._complete_fn_registration",))

    def guarded(p):
        for g, b, _ in p.guards:
            g = unver(g)
            if g == ("isnone", ("attr", SELF, "guards")):
                return not b
            if g == ("truthy", ("attr", SELF, "guards")):
                return b
        return None

    def ok(p):
        if p.kind != "return" or not new_text(p, None):
            return True
        for e in new_text(p, None):
            pcs = pieces(e.args["value"], ps.it)
            if pcs is None:
                if is_attr(unver(e.args["value"]), "_augmented_source_code"):
                    continue
                if is_attr(unver(e.args["value"]), "fn_source_code"):
                    return "the code of the functions used is missing"
                return None
            if not pcs:
                return "the augmented code is empty"
            for coll, parts, conds in pcs:
                parts = flat_parts(parts)
                own_ = [i for i, x in enumerate(parts) if x[0] in ("attr", "call")]
                dec = [i for i in own_ if (parts[i][0] == "attr" and parts[i][2] == "decorator") or fn_name(parts[i]) == "decorator"]
                src = [i for i in own_ if (parts[i][0] == "attr" and parts[i][2] == "fn_source_code") or fn_name(parts[i]) == "fn_source_code"]
                if not dec:
                    return "the decorators are missing" if src else None
                if not src:
                    return "the source code is missing"
                base = [unver(parts[i][1] if parts[i][0] == "attr" else recv_of_(parts[i])) for i in (dec[0], src[0])]
                if base[0] != base[1]:
                    return "the decorator belongs to another function"
                if not dec[0] < src[0]:
                    return "the decorator comes after the function"
                if not any(is_c(x) and isinstance(x[2], str) and x[2].endswith("\n") for x in parts[dec[0] + 1:src[0]]):
                    return "decorator and function are on one line"
                if not any(is_c(x) and isinstance(x[2], str) and "\n" in x[2] for x in parts[src[0] + 1:]):
                    return "two functions are on one line"
                if conds:
                    return "some functions are left out"
                b = base[0]
                if not (b[0] == "item" and b[1] == ISLAND):
                    return None
                el = b[2]
                if el[0] != "elem":
                    return None
                if any(t[0] == "item" and t[2][0] == "slice" and t[2][1:4] != (NONE, NONE, NONE) and is_attr(t[1], "guards")
                       for x in [el[1], coll] + [l.x["iter"] for l in loops(p.events)] if x is not None for t in terms(unver(x))):
                    return "some guards are missing"
                m = members(el[1] if coll is None else coll)
                if m is None:
                    return None
                al = [t for k, t, g in m if k == "all" or (k == "each" and not g)]
                al = [t[1] if t[0] == "elem" else t for t in al]
                if not any(own(t, "dependencies") for t in al):
                    return "functions it depends on are missing" if all(t[0] == "attr" for t in al) else None
                if guarded(p) is not False and not any(own(t, "guards") for t in al):
                    if guarded(p) is None and any(k == "each" and not g and has_attr(t, "guards") for k, t, g in m) and not any(
                            contains(unver(g), ("attr", SELF, "fn_name")) for l in loops(p.events) for _, _, gs in l.x["iters"] for g, _ in gs):
                        return None
                    return "its guards are missing"
                # guards of what it uses, and what guards use
                deep = [t for k, t, g in m if k in ("each", "all") and has_attr(t, "guards") and not own(t, "guards") and t != ("elem", ("attr", SELF, "guards"))]
                if not any(is_attr(t[1] if t[0] == "elem" else t, "dependencies") for t in deep):
                    return "what guards need is missing" if deep else "guards of functions it depends on are missing"
            for l in loops(p.events):
                if l.x["iter"] is None or not any(x.kind == "getitem" or x.kind == "inplace" for _, xs, _ in l.x["iters"] for x in xs):
                    continue
                t = e.args["value"]
                if t[0] == "mu" and l.x["id"] == t[1]:
                    if any(k != "next" for k, _, _ in l.x["iters"]):
                        return "some functions are left out"
                    for k, xs, gs in l.x["iters"]:
                        if not any(x.kind in ("inplace", "getitem") for x in xs):
                            if any(unver(g)[0] == "in" for g, _ in gs):
                                return None
                            return "some functions are left out"
                    o = ordered(l.x["iter"])
                    if o is not True:
                        return "the order of the functions differs from process to process" if o is False else None
            if e.args["value"][0] == "call":
                for x in e.args["value"][2][0][1]:
                    o = ordered(x[2]) if x[0] == "each" else None
                    if o is not True:
                        return "the order of the functions differs from process to process" if o is False else None
        return True
    ctx.forall("augmented code", ps, ok, "decorator and source of every function needed, in a fixed order", need=2)

    def agree(p):
        k = None
        for g, b, _ in p.guards:
            g = unver(g)
            if g[0] == "isnone" and is_attr(g[1], "_augmented_source_code") and not own(g[1], "_augmented_source_code"):
                k = b
            if g[0] == "truthy" and is_attr(g[1], "_augmented_source_code") and not own(g[1], "_augmented_source_code"):
                k = not b
        if p.kind != "return":
            return True
        here = ("item", ISLAND, ("attr", SELF, "fn_name"))
        w = [e for e in new_text(p, None) if unver(e.recv) == here]
        if k is None:
            return not w or "the recorded code is replaced"
        if k:
            return bool(w) or "the augmented code is not kept with the function"
        known = ("attr", here, "_augmented_source_code")
        same = {known}
        for g, b, _ in p.guards:
            g = unver(g)
            if g[0] == "eq" and b and known in g[1:]:
                same |= set(g[1:])
        if any(unver(e.args["value"]) not in same for e in w):
            return "the recorded code is replaced"
        cmp = [b for g, b, _ in p.guards if unver(g)[0] == "eq" and contains(unver(g), ("attr", here, "_augmented_source_code"))]
        if not cmp:
            return "code that differs from the recorded one is accepted"
        if all(known not in unver(g)[1:] and any((ext_call(t, "len", "set", "sorted", "hash") or t[0] == "item" and t[2][0] == "slice"
                                                  or t[0] == "call" and fn_name(t) in LOSSY)
                                                 and contains(t, known) for t in terms(unver(g)))
               for g, b, _ in p.guards if unver(g)[0] == "eq" and contains(unver(g), known)):
            return "code that differs from the recorded one is accepted"
        return cmp[0] or "code that differs from the recorded one is accepted"
    ctx.forall("agreement", ps, agree, "what was recorded first stays, and the rest has to agree", need=2)
    g = c.find("augmented_fn_source_code")
    pg = ctx.run(g, cls=c, exc="none")

    def given(p):
        if p.kind != "return":
            return True
        v = unver(p.value)
        if v == ("attr", ("item", ISLAND, ("attr", SELF, "fn_name")), "_augmented_source_code") or own(v, "_augmented_source_code"):
            return True
        return "the plain source code is given" if is_attr(v, "fn_source_code") else None
    ctx.forall("augmented_fn_source_code", pg, given, "gives what was recorded", need=1)


LOSSY = ("split", "splitlines", "strip", "lstrip", "rstrip", "lower", "upper", "casefold", "replace")


def recv_of_(t):
    from .pure import recv_of
    return recv_of(t)


class Text:
    """String terms as source text, with sample values for what is not constant."""
    def __init__(self, vals):
        self.vals = vals

    def __call__(self, t):
        if is_c(t):
            return str(t[2])
        if t[0] == "cat":
            r = [self(x) for x in t[1]]
            return None if None in r else "".join(r)
        if t[0] == "op" and t[1] == "+":
            a, b = self(t[2]), self(t[3])
            return None if a is None or b is None else a + b
        if t[0] == "item" and t[2][0] == "slice" or ext_call(t, "sorted", "list", "tuple", "reversed"):
            x = self.val(unver(t))
            return None if x is None else str(x)
        if ext_call(t, "str", "format") and len(t[2]) == 1:
            return self(t[2][0])
        u = unver(t)
        if t[0] == "fmt" and t[2] in (-1, 115) and not t[3]:
            return self(t[1])
        if ext_call(t, "repr") and len(t[2]) == 1 or t[0] == "fmt" and t[2] == 114 and not t[3]:
            x = self.val(unver(t[2][0] if t[0] == "call" else t[1]))
            return None if x is None else repr(x)
        x = self.val(u)
        return None if x is None else str(x)

    def val(self, u):
        if u in self.vals:
            return self.vals[u]
        if u[0] == "item" and len(u) > 2 and self.val(u[1]) is not None:
            k = u[2]
            try:
                if is_c(k):
                    return self.val(u[1])[k[2]]
                if k[0] == "slice":
                    return self.val(u[1])[slice(*[x[2] if x and is_c(x) else None for x in k[1:4]])]
            except Exception:
                return None
        if u[0] == "call" and u[1][0] == "attr" and u[1][2] == "join" and is_c(u[1][1]) and len(u[2]) == 1:
            a = self.val(u[2][0])
            return u[1][1][2].join(a) if isinstance(a, (list, tuple)) and all(isinstance(x, str) for x in a) else None
        if ext_call(u, "sorted", "list", "tuple", "reversed") and len(u[2]) == 1 and not u[3] and self.val(u[2][0]) is not None:
            return {"sorted": sorted, "list": list, "tuple": tuple, "reversed": lambda x: list(reversed(x))}[u[1][1]](self.val(u[2][0]))
        if u[0] == "call" and u[1][0] == "prop" and u[3]:
            n = u[1][1].split(".")[-1]
            return self.vals.get(("attr", SELF, n))
        return None


def kinds_of(ctx):
    """decorator name -> class of the decorator"""
    return {n: ctx.P.cls(n) for n in ("autonomous", "strictly_autonomous", "pure", "ordinary")}


@rule("C43", "decorators", "the decorator text tells kind, island and guards")
def c43_decorator(ctx):
    IS = ("attr", SELF, "island_name")
    GU = ("attr", SELF, "guards")
    ST = ("attr", SELF, "strictly_autonomous")
    for cn, cases in (("AutonomousFn", [("autonomous", {ST: False}), ("strictly_autonomous", {ST: True})]),
                      (PF, [("pure", {GU: None}), ("pure", {GU: ["g_one", "g_two"]}), ("pure", {GU: ["g_one"]}),
                           ("pure", {GU: ["a", "b", "c", "d_d"]})])):
        c = ctx.P.cls(cn)
        f = c.find("decorator")
        ps = ctx.run(f, cls=c, exc="none", inline=("fn_type",))
        pt = ctx.run(c.find("fn_type"), cls=c, exc="none")
        for kind, extra in cases:
            vals = {IS: "Isl", ("attr", SELF, "fn_name"): "the_fn", ("attr", SELF, "fn_source_code"): "def the_fn(): pass", **extra}

            def atom(t):
                t = unver(t)
                if t in vals:
                    return vals[t]
                return UNK

            def types():
                out = set()
                for p in pt:
                    if consistent(p, atom) and p.kind == "return":
                        v = teval(p.value, atom)
                        if v is UNK:
                            return None
                        out.add(v)
                return out
            if ps.paths is None or pt.paths is None:
                ctx.check(f"{cn}: {kind}", None, f.loc(), ps.why or pt.why)
                continue
            ft = types()
            if ft is None or len(ft) != 1:
                ctx.check(f"{cn}: {kind}", None, f.loc(), "the kind is not constant")
                continue
            ft = ft.pop()
            tx = Text({**vals, ("attr", SELF, "fn_type"): ft})
            res = True
            for p in ps:
                if not consistent(p, atom):
                    continue
                if p.kind != "return":
                    res = None
                    continue
                s = tx(p.value)
                if s is None:
                    res = None
                    continue
                why = decorator_ok(s, kind, vals.get(GU), cn)
                if why:
                    res = why
                    break
            ctx.check(f"{cn}: {kind}" + (" with guards" if vals.get(GU) else ""), res is True if res in (True,) else (None if res is None else False), f.loc(),
                      res if isinstance(res, str) else "reads back as the decorator with the same parameters")


def decorator_ok(s, kind, guards, cn):
    try:
        m = ast.parse(s + "\ndef f(x):\n    pass\n")
        d = m.body[0].decorator_list[0]
        assert len(m.body) == 1 and len(m.body[0].decorator_list) == 1 and isinstance(d, ast.Call)
        name = d.func.attr
    except Exception:
        return "the decorator cannot be read back"
    if name != kind:
        return "the decorator tells another kind of function"
    if d.args:
        return "the decorator cannot be read back"
    try:
        kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
    except Exception:
        return "the parameters of the decorator cannot be read back"
    if kw.get("island_name") != "Isl":
        return "the decorator does not tell the island"
    if kw.get("guards") != guards:
        return "the decorator does not tell the guards"
    if set(kw) - {"island_name", "guards"}:
        return "the decorator has parameters that are not the function's"
    return None


@rule("C43", "loading", "all functions of an augmented code are registered")
def c43_load(ctx):
    f = ctx.P.func("process_augmented_func_src")
    ps = ctx.run(f, exc="none")
    SRC, PORT = [sym(x) for x in f.params()[0][:2]]

    def alts(t, it, depth=0):
        """What t can be, through lists filled by earlier loops."""
        if depth > 6:
            return {t}
        if t[0] == "item" and t[1][0] == "elem":
            b = t[1][1]
            res = set()
            todo, seen = [b], set()
            while todo:
                x = strip_wrappers(todo.pop())
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == "mu":
                    todo += list(it.mus.get(x, ()))
                elif x[0] == "list":
                    for y in x[1]:
                        if y[0] in ("one", "each"):
                            v = y[1]
                            if v[0] == "elem":
                                todo.append(v[1])
                            elif v[0] == "tuple" and is_c(t[2]) and isinstance(t[2][2], int) and t[2][2] < len(v[1]):
                                res |= alts(v[1][t[2][2]], it, depth + 1)
                            elif v[0] == "dict":
                                d = dict_parts(v)
                                if d and is_c(t[2]) and t[2][2] in d[0]:
                                    res |= alts(d[0][t[2][2]], it, depth + 1)
                                else:
                                    return {t}
                            else:
                                return {t}
                        else:
                            return {t}
                else:
                    return {t}
            return res or {t}
        return {t}

    def registers(e):
        """e decorates a function: (name, keyword arguments, source)"""
        if e.kind != "call" or not isinstance(e.res, tuple) or e.res[0] != "call":
            return None
        g = e.res[1]
        if g[0] == "call" and g[1][0] == "item" and unver(g[1][1])[0] in ("gvar", "mod", "ext", "attr", "name") and tstr(g[1][1]).endswith("_decorators"):
            return g, e.res
        return None

    def body(t):
        """the syntax tree of the augmented code"""
        return has_call(t, "parse") and contains(t, SRC)

    def node(t):
        t = unver(t)
        return t[0] == "elem" and is_attr(t[1], "body") and body(t[1])

    def ok(p):
        if p.kind != "return":
            return True
        regs = [(e, registers(e)) for e in flat_events(p.events)]
        regs = [(e, r) for e, r in regs if r]
        if not regs:
            return None
        for e, (g, r) in regs:
            if not tstr(g[1][1]).endswith("primary_decorators"):
                return "other decorators than those of autonomous and pure functions are used"
            for n in alts(g[1][2], ps.it):
                n = unver(n)
                if not (is_attr(n, "attr") and is_attr(n[1], "func") and n[1][1][0] == "item" and is_attr(n[1][1][1], "decorator_list")
                        and node(n[1][1][1][1])):
                    return None
            if not g[2] and not g[3]:
                return "the parameters of the decorators are lost"
            ks = [v for k, v in g[3] if k == "**"] or [x[1] for x in g[2] if x[0] == "**"]
            if not ks:
                return None
            for k in alts(ks[0], ps.it):
                if any(x[0] == "item" and x[2][0] == "slice" and has_attr(x[1], "keywords") for x in terms(unver(k))):
                    return "some parameters of the decorators are lost"
                if not has_call(k, "convert_astkeywords_to_dict"):
                    return "the parameters of the decorators are lost" if k[0] == "dict" and not has_attr(k, "keywords") else None
            if len(r[2]) != 1:
                return None
            for s in alts(r[2][0], ps.it):
                if fn_name(s) != "unparse":
                    return None
                n = unver(s[2][0])
                stripped = [x for x in flat_events(p.events) if x.kind == "setattr" and x.name == "decorator_list" and unver(x.recv) == n]
                if not stripped:
                    if any(e2.recv is not None and is_attr(unver(e2.recv), "decorator_list") for e2 in flat_events(p.events)
                           if e2.kind in ("mutate", "delitem", "setitem") or e2.kind == "call" and last(e2) in ("clear", "pop", "remove")):
                        return None
                    return "a function is registered with its decorator in the source code"
                if not any(node(x) for x in terms(n)):
                    return None
        # every function is registered
        reg = {id(e) for e, _ in regs}
        whole = None
        for l in loops(p.events):
            if l.x["iter"] is None:
                continue
            it = strip_wrappers(l.x["iter"])
            inside = any(id(x) in reg for _, xs, _ in l.x["iters"] for x in xs)
            if is_attr(unver(it), "body") and body(it):
                if any(k in ("break", "return") for k, _, _ in l.x["iters"]):
                    return "some functions are not registered"
                if inside:
                    if all(any(id(x) in reg for x in xs) for k, xs, _ in l.x["iters"] if k == "next"):
                        whole = True
                    else:
                        return "some functions are not registered"
                else:
                    # collected first
                    lists = [x for m in ps.it.mus for x in ps.it.mus[m] if x is not None and x[0] == "list" and x[1] and all(
                        y[0] == "each" and y[2] == l.x["iter"] for y in x[1])]
                    for x in lists:
                        got = {frozenset(g_ for g_ in y[3]) for y in x[1]}
                        all_ = {frozenset(gs) for k, xs, gs in l.x["iters"] if k == "next"}
                        if all_ - got:
                            return "some functions are not registered"
                        whole = whole or True
                    if not lists and any(True for k, _, _ in l.x["iters"] if k == "next"):
                        whole = whole
            elif inside:
                if any(k in ("break", "return") for k, _, _ in l.x["iters"]):
                    return "some functions are not registered"
                left = [gs for k, xs, gs in l.x["iters"] if k == "next" and not any(id(x) in reg for x in xs)]
                el = ("elem", it)
                kept = set()
                for m in ps.it.mus:
                    for x in ps.it.mus[m]:
                        if x is not None and x[0] == "list":
                            kept |= {frozenset(y[3]) for y in x[1] if y[0] == "each" and y[1] == el}
                if any(frozenset(gs) not in kept for gs in left):
                    return None if any("unknown" in repr(x) for x in kept) and not left else "functions put off are forgotten"
                if it[0] == "mu" and left:
                    if not any(unver(g_) == ("truthy", it) and not b for g_, b, _ in p.guards):
                        return None
        return whole
    ctx.forall("registration", ps, ok, "every function, with its decorator and parameters", need=1)

    def own_portal(p):
        """The portal given to the operation is the one the functions get."""
        if p.kind != "return":
            return True
        best = [e.res for e in events(p) if e.kind == "call" and last(e) == "get_best_portal_to_use"
                and PORT in list(e.args.values())]
        mine = [PORT] + best

        def real(t):
            return "PORTAL" if t in mine else UNK
        inside = False
        got = None
        for e in flat_events(p.events):
            if e.kind == "with_enter" and e.recv in mine:
                inside = True
            r = registers(e)
            if r:
                direct = [v for k, v in r[0][3] if k == "portal"]
                if inside or direct and all(v in mine for v in direct):
                    return True
                if direct:
                    return "the functions are registered in another portal"
                got = r[0]
        if got is None:
            return None
        seen = None
        for l in loops(p.events):
            it = l.x["iter"]
            if it is None or not (is_attr(unver(strip_wrappers(it)), "body") and body(strip_wrappers(it))):
                continue
            for k, xs, gs in l.x["iters"]:
                if k != "next" or not gconsistent(gs, real):
                    continue
                w = [x for x in xs if x.kind == "setitem" and x.args["key"] == C("portal")]
                if not w:
                    return "the functions are not registered in the portal that was given"
                if w[-1].args["value"] not in mine:
                    return "the functions are registered in another portal"
                seen = True
        return seen
    ctx.forall("portal that was given", ps, own_portal, "the functions are registered in the portal that was given", need=1)

    def checks(p):
        if p.kind != "return":
            return True
        need = {"fd": False, "one": False, "portal": False}
        seen = False
        for l in loops(p.events):
            if l.x["iter"] is None or not (is_attr(unver(strip_wrappers(l.x["iter"])), "body") and body(l.x["iter"])):
                continue
            for k, xs, gs in l.x["iters"]:
                if k != "next":
                    continue
                seen = True
                h = set()
                for g, b in gs:
                    u = unver(g)
                    if u[0] == "isinstance" and node(u[1]) and str(u[2]).split(".")[-1] == "FunctionDef" and b:
                        h.add("fd")
                    v = {n: teval(u, lambda t: n if (t[0] == "call" and t[1] == ("ext", "len") and is_attr(unver(t[2][0]), "decorator_list")) else UNK)
                         for n in (0, 1, 2)}
                    if UNK not in v.values() and [n for n in v if bool(v[n]) == b] == [1]:
                        h.add("one")
                for w, why in (("fd", "something else than a function definition is accepted"),
                               ("one", "a function without exactly one decorator is accepted")):
                    if w not in h:
                        if any("FunctionDef" in tstr(unver(g[0])) or "decorator_list" in tstr(unver(g[0])) for g in list(p.guards) + [
                                (c, b) for m in loops(p.events) if m is not l for _, _, gg in m.x["iters"] for c, b in gg]):
                            return None
                        return why if not any(node(x) for g, b in gs for x in terms(unver(g)) if w == "fd" and unver(g)[0] == "isinstance") else None
        return True if seen else None
    ctx.forall("validation", ps, checks, "only functions with exactly one decorator", need=1)

    def portal(p):
        if p.kind != "return":
            return True
        w = [e for e in flat_events(p.events) if e.kind == "setitem" and e.args.get("key") == C("portal")]
        if not w:
            if any("portal" in tstr(x) for e in flat_events(p.events) if registers(e) for x in (registers(e)[0],) if any(
                    k == "portal" for k, _ in x[3])):
                return True
            return "functions are registered in another portal"
        for e in w:
            v = e.args["value"]
            if v == PORT or (fn_name(v) == "get_best_portal_to_use" and contains(v, PORT)):
                continue
            return "functions are registered in another portal"
        return True
    ctx.forall("portal", ps, portal, "in the portal given", need=1)

    def first(p):
        if p.kind != "return":
            return True
        for l in loops(p.events):
            for k, xs, gs in l.x["iters"]:
                if any(registers(e) for e in xs):
                    def about(g):
                        g = unver(g)
                        if g[0] in ("truthy", "isnone") and (fn_name(g[1]) == "get" or g[1][0] in ("attr", "item", "elem")):
                            return False
                        return has_attr(g, "guards") or any(is_c(x) and x[2] == "guards" for x in terms(g))
                    return any(about(g) for g, b in gs) or "a function can be registered before its guards"
        return None
    ctx.forall("order", ps, first, "guards before the functions they guard", need=1)
    k = ctx.P.func("convert_astkeywords_to_dict")
    pk = ctx.run(k, exc="none")
    KS = sym(k.params()[0][0])

    def lit(p):
        if p.kind != "return":
            return True
        v = p.value
        if v[0] != "dict":
            return None
        if not v[1]:
            return "the parameters of the decorators are lost"
        for x in v[1]:
            if x[0] != "kveach":
                return None
            el = ("elem", KS)
            if strip_wrappers(x[3]) != KS:
                return None
            if unver(x[1]) != ("attr", el, "arg"):
                return "the parameters of the decorators are mixed up" if is_c(x[1]) else None
            if has_call(x[2], "eval"):
                return "parameters in stored source code are evaluated as code"
            if fn_name(x[2]) != "literal_eval" or unver(x[2][2][0]) != ("attr", el, "value"):
                return "the values of the parameters are not read" if not has_call(x[2], "literal_eval") else None
            if any(not (unver(g[0])[0] == "isinstance" and unver(g[0])[1] == el) for g in x[4]):
                return "some parameters of the decorators are lost"
        return True
    ctx.forall("convert_astkeywords_to_dict", pk, lit, "every parameter, as a literal", need=1)
    px = ctx.run(k, cls=None, exc="handlers")

    def refused(p):
        if p.kind != "return":
            return True
        if any(failed(e) and last(e) == "literal_eval" for e in flat_events(p.events)):
            return "a parameter that is no literal is accepted"
        return True
    ctx.forall("parameters that are no literals", px, refused, "are refused", need=1)


@rule("C43", "arrival", "a loaded function brings what it needs with it")
def c43_state(ctx):
    c = ctx.P.cls(PF)
    s = c.find("__setstate__")
    ps = ctx.run(s, cls=c, exc="none", opaque=("_complete_fn_registration", "_begin_fn_registration", "process_augmented_func_src"))
    ST = sym(s.params()[0][1])
    TXT = ("item", ST, C("augmented_fn_source_code"))
    here = ("item", ISLAND, ("attr", SELF, "fn_name"))

    def ok(p):
        known = None
        for g, b, _ in p.guards:
            if unver(g) == ("truthy", ("attr", here, "_fn_fully_registered")):
                known = b
        if p.kind != "return":
            return True
        pr = [e for e in events(p) if e.kind == "call" and last(e) == "process_augmented_func_src"]
        if known is None:
            return "what a loaded function needs is not registered" if not pr else None
        if not known:
            if not pr:
                return "what a loaded function needs is not registered"
            a = list(pr[0].args.values())
            if unver(pr[0].args.get("input_src", a[0])) != TXT:
                return None
            q = pr[0].args.get("portal", a[1] if len(a) > 1 else NONE)
            if q == NONE or not is_attr(unver(q), "portal", SELF):
                return "what a loaded function needs is registered in another portal" if q == NONE else None
            w = [e for e in events(p) if e.kind == "setattr" and e.name == "_augmented_source_code" and unver(e.recv) == here]
            if w and unver(w[-1].args["value"]) != TXT:
                return "the stored code is not kept"
            return True
        cmp = [b for g, b, _ in p.guards if unver(g)[0] == "eq" and contains(unver(g), TXT) and contains(
            unver(g), ("attr", here, "_augmented_source_code"))]
        if not cmp or not cmp[0]:
            return "a function whose code differs from the registered one is accepted"
        if any(ext_call(t, "len") or t[0] == "item" and t[2][0] == "slice" for g, b, _ in p.guards if unver(g)[0] == "eq"
               and contains(unver(g), TXT) for t in terms(unver(g))):
            return "a function whose code differs from the registered one is accepted"
        return True
    ctx.forall("__setstate__", ps, ok, "registers what it needs, or agrees with what is registered", need=2)

    def comp(p):
        if p.kind != "return":
            return True
        evs = events(p)
        d = [i for i, e in enumerate(evs) if e.kind == "call" and last(e) == "_complete_fn_registration"]
        pr = [i for i, e in enumerate(evs) if e.kind == "call" and last(e) == "process_augmented_func_src"]
        if not d:
            return "a loaded function is not checked"
        return not pr or d[-1] > pr[-1] or "a loaded function is checked before what it needs is there"
    ctx.forall("__setstate__: check", ps, comp, "the code is compared with what is computed here", need=1)
    g = c.find("__getstate__")
    pg = ctx.run(g, cls=c, exc="none", opaque=("_complete_fn_registration",))

    def carries(p):
        if p.kind != "return":
            return True
        d = normal_dict(p.value)
        v = d[0].get("augmented_fn_source_code") if d else None
        if v is None:
            return None if d is None or d[1] or not d[0] else "a stored function does not bring its code with it"
        v = unver(v)
        n = v[2] if v[0] == "attr" else fn_name(v)
        return n in ("augmented_fn_source_code", "_augmented_source_code") or (
            "a stored function does not bring its code with it" if n == "fn_source_code" or is_c(v) else None)
    ctx.forall("__getstate__", pg, carries, "the augmented code is stored with the function", need=1)
