"""Autonomous functions: names, enforcement, redefinition, dependencies (C24-C27)."""
import ast
from .base import *
from .ordinary import ext_call, function_classes

NUA = "NamesUsageAnalyzer"
NAMES = ("attr", SELF, "names")


def acc(owner=NAMES, n="accessible"):
    return ("attr", owner, n)


def flat(t, subs=()):
    """Set term as [(kind, term, subtracted)], kind 'el' or 'set'; None if not understood."""
    t0 = t
    if t[0] == "op" and t[1] in ("|", "-", "&", "^"):
        if t[1] == "|":
            a, b = flat(t[2], subs), flat(t[3], subs)
            return None if a is None or b is None else a + b
        if t[1] == "-":
            return flat(t[2], subs + (t[3],))
        return None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("union", "difference", "copy") and not t[3]:
        r = flat(t[1][1], subs if t[1][2] != "difference" else subs + tuple(t[2]))
        if t[1][2] == "union" and r is not None:
            for x in t[2]:
                y = flat(x, subs)
                if y is None:
                    return None
                r = r + y
        return r
    if ext_call(t, "set", "frozenset"):
        if not t[2]:
            return []
        it = seq_items(t[2][0])
        if it is not None:
            return [("el", x, subs) for x in it]
        if t[2][0][0] == "set" or (t[2][0][0] == "op"):
            return flat(t[2][0], subs)
        return [("set", t[2][0], subs)]
    if t[0] in ("set", "list", "tuple"):
        out = []
        for x in t[1]:
            if t[0] == "tuple":
                out.append(("el", x, subs))
            elif x[0] == "one":
                out.append(("el", x[1], subs))
            elif x[0] == "each":
                if x[3]:
                    return None
                out.append(("each", x, subs))
            else:
                out.append(("set", x[1] if len(x) == 2 else x, subs))
        return out
    return [("set", t0, subs)]


def growth(p, attr, owner=NAMES, top=None):
    """What is added to owner.attr on the path (None: not understood)."""
    out = []
    for e in events(p):
        tgt = ("attr", owner, attr)
        if e.kind == "setattr" and e.name == attr and e.recv == owner:
            f = flat(e.args["value"])
            if f is None:
                return None
            out += [x for x in f if not (x[0] == "set" and x[1] == tgt)]
        elif e.kind == "call" and e.recv is not None and last(e) in ("add", "update", "discard", "remove", "clear",
                                                                     "difference_update", "intersection_update"):
            if not (e.recv == tgt or (e.recv[0] == "mu" and e.recv[-1] == attr)):
                continue
            if last(e) == "add":
                out.append(("el", e.args.get("0") or next(iter(e.args.values())), ()))
            elif last(e) == "update":
                for v in e.args.values():
                    f = flat(v)
                    if f is None:
                        return None
                    out += f
            else:
                out.append(("less", e.args.get("0"), ()))
    return out


def shrinks(p, attr, owner=NAMES):
    for e in events(p):
        if e.kind == "setattr" and e.name == attr and e.recv == owner:
            f = flat(e.args["value"])
            if f is None:
                return None
            if not any(x[0] == "set" and not x[2] and (x[1] == ("attr", owner, attr) or x[1][0] == "mu")
                       for x in f):
                return True
    g = growth(p, attr, owner)
    return None if g is None else any(x[0] == "less" for x in g)


def accessible(p, owner=NAMES):
    """Elements that become accessible, following aliases like 'accessible |= local'."""
    g = growth(p, "accessible", owner)
    if g is None:
        return None
    out = list(g)
    for k, t, s in g:
        for a in ("local", "imported"):
            if k == "set" and (t == ("attr", owner, a) or (t[0] == "mu" and t[-1] == a)):
                h = growth(p, a, owner)
                if h is None:
                    return None
                out += h
    return out


def has_el(g, t):
    return any((k == "el" and unver(x) == unver(t)) or (k == "each" and unver(x[1]) == unver(t))
               for k, x, s in g if not s)


def method(c, name):
    m = c.find(name)
    seen = 0
    while m is None and seen < 5:
        a = next((k.attrs[name] for k in c.mro if hasattr(k, "attrs") and name in k.attrs), None)
        if not isinstance(a, ast.Name):
            return None
        name, seen = a.id, seen + 1
        m = c.find(name)
    return m


def visits(p):
    """(event, argument) of everything that descends into the tree."""
    for e in events(p):
        if e.kind == "call" and (last(e) in ("visit", "generic_visit") or last(e).startswith("visit_")):
            for v in e.args.values():
                yield e, v


LEAF = {"Name", "Import", "ImportFrom", "Nonlocal", "Global", "MatchStar", "Constant", "Pass"}


def fields(kind):
    k = getattr(ast, kind, None)
    if k is None:
        return None
    skip = {"name", "id", "ctx", "attr", "arg", "type_comment", "type_params", "names", "module", "level", "rest",
            "is_async", "simple", "conversion", "kind", "returns", "annotation", "op", "ops"}
    return [f for f in k._fields if f not in skip]


def fresh_analyzer(t):
    return t[0] == "call" and t[1][0] == "cls" and t[1][1] == NUA


def nested_of(p):
    for e, v in visits(p):
        if e.recv is not None and fresh_analyzer(e.recv):
            return e.recv
    return None


@rule("C24", "names", "reads are classified, stores bind")
def c24_names(ctx):
    c = ctx.P.cls(NUA)
    m = method(c, "visit_Name")
    if m is None:
        ctx.check("visit_Name", False, c.loc(), "names are not analysed")
        return
    ps = ctx.run(m, cls=c, exc="none")
    node = sym(m.params()[0][1])
    ID = ("attr", node, "id")

    def atom(t, v):
        if t[0] == "isinstance" and t[1] == ("attr", node, "ctx"):
            n = str(t[2]).split(".")[-1]
            return n == v["ctx"] if n in ("Load", "Store", "Del") else UNK
        if t[0] == "eq" and any(fn_name(x) == "type" or x[0] == "typeof" for x in t[1:3]):
            n = [str(x[-1]).split(".")[-1] for x in t[1:3] if x[0] in ("ext", "cls")]
            return n[0] == v["ctx"] if n else UNK
        if t[0] == "in" and t[1] == ID:
            f = flat(t[2])
            if f and any(x[1] == acc() and not x[2] for x in f):
                return v["acc"] or any(x[0] == "el" and x[1] == ID for x in f)
        return v["id"] if t == ID else UNK

    def out(p, exp):
        if p.kind != "return":
            return "fails on a name"
        un, al, lo = growth(p, "unclassified_deep"), growth(p, "accessible"), growth(p, "local")
        if un is None or al is None:
            return None
        filt = [g for g, b, _ in p.guards if g[0] == "in" and g[1] == ID and teval(g, lambda t: atom(t, exp[1])) is UNK]
        unk = [g for g, b, _ in p.guards if teval(g, lambda t: atom(t, exp[1])) is UNK and g not in filt]
        if exp[0] == "need":
            ok = has_el(un, ID)
            unk = [g for g in unk if contains(g, node)]
            return ok or (None if unk else "a name that is read but not bound is not reported")
        if has_el(un, ID) or un:
            return "a name that is bound is reported as needed from outside" if not unk else None
        if exp[0] == "bind":
            ok = has_el(al, ID)
            return ok or (None if unk else "a name that is assigned does not count as bound")
        if exp[0] == "known":
            return True
    rows = []
    for lab, v, e in (("read, not bound", dict(ctx="Load", acc=False), "need"),
                      ("read, bound", dict(ctx="Load", acc=True), "known"),
                      ("assigned, new", dict(ctx="Store", acc=False), "bind"),
                      ("assigned, bound", dict(ctx="Store", acc=True), "known")):
        for nm in ("x", "_y", "__z__", "Name1", "a_long_name"):
            w = {**v, "id": nm}
            rows.append((f"{lab}: {nm}", w, (e, w)))
    ctx.table("visit_Name", ps, rows, atom, out, "names are classified")


@rule("C24", "binders", "every construct that binds a name is known")
def c24_bind(ctx):
    c = ctx.P.cls(NUA)
    n = sym("node")

    def el(coll):
        return ("elem", ("attr", n, coll))
    # construct -> alternatives (visitor, name that becomes bound, guard that makes it moot)
    table = {
        "nested function": [("FunctionDef", ("attr", n, "name"))],
        "nested async function": [("AsyncFunctionDef", ("attr", n, "name"))],
        "class": [("ClassDef", ("attr", n, "name"))],
        "except ... as": [("Try", ("attr", el("handlers"), "name")), ("ExceptHandler", ("attr", n, "name"))],
        "except* ... as": [("TryStar", ("attr", el("handlers"), "name")), ("ExceptHandler", ("attr", n, "name"))],
        "match: as": [("MatchAs", ("attr", n, "name"))],
        "match: *rest": [("MatchStar", ("attr", n, "name"))],
        "match: **rest": [("MatchMapping", ("attr", n, "rest"))],
    }

    def moot(p, t):
        """the path is one on which there is no such name"""
        for g, b, _ in p.guards:
            g = unver(g)
            if g == ("isnone", t) and b or g == ("truthy", t) and not b:
                return True
            if g == ("not", ("truthy", t)) and b:
                return True
        return False
    for what, alts in table.items():
        results = []
        for kind, t in alts:
            m = method(c, "visit_" + kind)
            if m is None:
                continue
            ps = ctx.run(m, cls=c, exc="none", params={m.params()[0][1]: n} if m.params()[0][1] != "node" else None)
            if ps.paths is None:
                results.append(None)
                continue

            def ok(p, t=t):
                if p.kind != "return":
                    return True
                g = accessible(p)
                if g is None:
                    return None
                if has_el(g, t) or moot(p, t):
                    return True
                LEVEL = ("attr", SELF, "func_nesting_level")
                if not all(consistent(p, lambda x, k=k: k if x == LEVEL else UNK) for k in (1, 2)):
                    return True        # the function itself
                # guarded inside a loop over the handlers
                if t[1][0] == "elem":
                    for e in events(p):
                        if e.kind == "loop":
                            its = [(k, xs, gs) for k, xs, gs in e.x["iters"] if k == "next"]
                            bare = [gs for k, xs, gs in its if not any(
                                unver(gg[0]) in (("isnone", t), ("truthy", t)) for gg in gs)]
                            if its and bare:
                                return False
                            if its:
                                return True
                    return False
                return False
            rs = [ok(p) for p in ps.paths]
            results.append(False if False in rs else None if None in rs else True)
        if not results:
            ctx.check(what, False, c.loc(), f"the name bound by '{what}' is taken for one needed from outside")
        else:
            ctx.check(what, True if True in results else None if None in results else False, c.loc(),
                      f"the name bound by '{what}' counts as bound" if True in results else
                      f"the name bound by '{what}' is taken for one needed from outside", len(results))
    m = method(c, "visit_ClassDef")
    if m is not None:
        nd = sym(m.params()[0][1])

        def early(p):
            if p.kind != "return":
                return True
            bound = body = None
            for i, e in enumerate(flat_events(p.events)):
                if e.kind == "call" and (last(e) in ("visit", "generic_visit") or last(e).startswith("visit_")):
                    if body is None and any(y == nd or y[0] == "elem" and is_attr(unver(y[1]), "body", nd) for y in e.args.values()):
                        body = i
                elif e.kind == "setattr" and e.recv == NAMES and e.name == "accessible" or e.kind == "call" and last(e) in (
                        "add", "update") and e.recv is not None and is_attr(unver(e.recv), "accessible"):
                    bound = i if bound is None else bound
            return body is None or bound is None or bound < body or "the name of a class is not known inside the class"
        ctx.forall("class: name", ctx.run(m, cls=c, exc="none"), early, "bound before what is inside the class is analysed", need=1)
    # comprehensions: targets first
    for kind in ("ListComp", "SetComp", "DictComp", "GeneratorExp"):
        m = method(c, "visit_" + kind)
        if m is None:
            ctx.check(kind, False, c.loc(), f"the targets of a {kind} are taken for names needed from outside")
            continue
        ps = ctx.run(m, cls=c, exc="none")
        nd = sym(m.params()[0][1])

        def first(p, nd=nd):
            if p.kind != "return":
                return "fails"
            for e in p.events:
                for x in flat_events([e]):
                    if x.kind == "call" and (last(x) in ("visit", "generic_visit") or last(x).startswith("visit_")):
                        a = list(x.args.values())
                        if any(y == ("elem", ("attr", nd, "generators")) for y in a):
                            return True
                        if any(y == nd or (y[0] == "attr" and y[1] == nd and y[2] in ("elt", "key", "value")) for y in a):
                            return "the element is analysed before the targets are bound"
            return None
        ctx.forall(kind, ps, first, "targets are bound before the element is analysed", need=1)
    # the (first) iterable of a comprehension is read outside it
    def reads(p, obj):
        """None if nothing is bound, else whether the iterable of obj was visited before"""
        seen = False
        for e in flat_events(p.events):
            if e.kind == "call" and (last(e) in ("visit", "generic_visit") or last(e).startswith("visit_")):
                a = list(e.args.values())
                if any(y[0] == "attr" and y[2] == "iter" and (obj is None or y[1] == obj) for y in a):
                    seen = True
                elif any(y == obj or y[0] == "elem" and is_attr(y[1], "generators") or y[0] == "item" and is_attr(unver(y[1]), "generators") for y in a):
                    return seen, "visit" if last(e) == "visit_comprehension" else None
            elif e.kind == "setattr" and e.recv == NAMES and e.name in ("local", "accessible") or e.kind == "call" and last(e) in ("add", "update") and \
                    e.recv is not None and (e.recv[:2] == ("attr", NAMES) or e.recv[0] == "mu" and e.recv[-1] in ("local", "accessible")):
                return seen, "bound"
        return seen, None
    vc = method(c, "visit_comprehension")
    if vc is not None:
        pv = ctx.run(vc, cls=c, exc="none")
        nv = sym(vc.params()[0][1])
        early = []
        for kind in ("ListComp", "SetComp", "DictComp", "GeneratorExp"):
            m = method(c, "visit_" + kind)
            pm = ctx.run(m, cls=c, exc="none") if m is not None else None
            early.append(pm is not None and pm.paths is not None and all(p.kind != "return" or reads(p, None)[0] for p in pm))

        def outer(p):
            if p.kind != "return" or any(g[0] == "isinstance" and g[1] == nv and (g[2].split(".")[-1] == "comprehension") != b for g, b, _ in p.guards):
                return True
            seen, how = reads(p, nv)
            if all(early) or seen:
                return True
            return "the iterable of a comprehension is analysed after the targets are bound" if how == "bound" else None
        ctx.forall("comprehension: iterable", pv, outer, "what a comprehension goes over is analysed before its targets are bound", need=1)
    # imports
    for kind in ("Import", "ImportFrom"):
        m = method(c, "visit_" + kind)
        if m is None:
            ctx.check(kind, False, c.loc(), "imports are not analysed")
            continue
        ps = ctx.run(m, cls=c, exc="none")
        nd = sym(m.params()[0][1])
        al = ("elem", ("attr", nd, "names"))

        def imp(p, kind=kind, nd=nd, al=al):
            if p.kind != "return":
                return "fails"
            g = accessible(p)
            if g is None:
                return None
            order = [(i, e) for i, e in enumerate(events(p)) if e.kind == "setattr" and e.recv == NAMES]
            inner = [i for i, e in order if e.name in ("imported", "local")]
            outer = [i for i, e in order if e.name == "accessible"]
            direct = [e for e in events(p) if e.kind == "call" and last(e) in ("add", "update") and e.recv is not None and (
                e.recv == ("attr", NAMES, "accessible") or (e.recv[0] == "mu" and e.recv[-1] == "accessible"))]
            if not direct and (not outer or inner and outer[-1] < inner[-1]):
                return "an imported name does not count as bound"
            loops = [e for e in events(p) if e.kind == "loop" and e.x["iter"] == ("attr", nd, "names")]
            AS, NM = ("attr", al, "asname"), ("attr", al, "name")
            seen = {True: False, False: False}
            for l in loops:
                for k, xs, gs in l.x["iters"]:
                    if k != "next":
                        return "not all imported names are looked at"
                    a = [b for cnd, b, *_ in gs if unver(cnd) == ("truthy", AS)]
                    a += [not b for cnd, b, *_ in gs if unver(cnd) == ("isnone", AS)]
                    els = []
                    for x in flat_events(xs):
                        if x.kind == "setattr" and x.recv == NAMES and x.name in ("imported", "accessible", "local"):
                            f = flat(x.args["value"])
                            if f is None:
                                return None
                            els += [y[1] for y in f if y[0] == "el"]
                        if x.kind == "call" and last(x) == "add" and x.recv is not None and (
                                x.recv in [("attr", NAMES, n) for n in ("imported", "accessible", "local")]
                                or x.recv[0] == "mu" and x.recv[-1] in ("imported", "accessible", "local")):
                            els += list(x.args.values())
                    if not els:
                        return "an imported name does not count as bound" if not gs or a else None
                    for t in els:
                        if t[0] == "or" or t[0] == "ite":
                            seen = {True: True, False: True}
                            continue
                        if a and a[0]:
                            if t != AS:
                                return "a renamed import binds the wrong name"
                            seen[True] = True
                        elif a:
                            if t == AS:
                                return "an import binds the wrong name"
                            if kind == "Import":
                                if t == NM:
                                    return "importing a submodule binds the wrong name"
                            elif t != NM:
                                return None
                            seen[False] = True
                        else:
                            if not contains(t, AS) and contains(t, NM):
                                return "a renamed import binds the wrong name"
                            return None if t not in (AS, NM) else "an import binds the wrong name"
            if not loops:
                return None
            return True if seen[True] and seen[False] else None
        ctx.forall(kind, ps, imp, "imported names are bound", need=1)
    # declarations
    for kind, a in (("Nonlocal", "explicitly_nonlocal_unbound_deep"), ("Global", "explicitly_global_unbound_deep")):
        m = method(c, "visit_" + kind)
        if m is None:
            ctx.check(kind, False, c.loc(), f"{kind.lower()} declarations are not reported")
            continue
        ps = ctx.run(m, cls=c, exc="none")
        nd = sym(m.params()[0][1])

        def decl(p, a=a, nd=nd, kind=kind):
            if p.kind != "return":
                return "fails"
            g = growth(p, a)
            if g is None:
                return None
            if any(k == "set" and t == ("attr", nd, "names") and not s for k, t, s in g):
                return True
            for k, t, s in g:
                if k == "el" and t == ("elem", ("attr", nd, "names")):
                    bad = [e for e in events(p) if e.kind == "loop" and any(gs for _, _, gs in e.x["iters"])]
                    return True if not bad else f"some {kind.lower()} declarations are not reported"
            some = [t for k, t, s in g if k == "set" and t[0] == "item" and t[2][0] == "slice" and t[1] == ("attr", nd, "names")]
            one = [t for k, t, s in g if k == "el" and t[0] == "item" and is_c(t[2]) and t[1] == ("attr", nd, "names")]
            if g and all(len(teval(t, lambda x: ("a", "b", "c") if x == ("attr", nd, "names") else UNK) or ()) < 3
                         for t in some if teval(t, lambda x: ("a", "b", "c") if x == ("attr", nd, "names") else UNK) is not UNK
                         ) and len(some) + len(one) == len(g):
                return f"some {kind.lower()} declarations are not reported"
            if any(k == "set" and s and t == ("attr", nd, "names") for k, t, s in g) or not g:
                return f"some {kind.lower()} declarations are not reported"
            return None
        ctx.forall(kind, ps, decl, f"{kind.lower()} declarations are reported", need=1)
    # yields
    for kind in ("Yield", "YieldFrom"):
        m = method(c, "visit_" + kind)
        if m is None:
            ctx.check(kind, False, c.loc(), f"{kind} is not counted")
            continue
        ps = ctx.run(m, cls=c, exc="none")

        def cnt(p):
            if p.kind != "return":
                return "fails"
            w = [e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "n_yelds"]
            if not w:
                return "a yield is not counted"
            v = teval(w[-1], lambda t: 3 if t == ("attr", SELF, "n_yelds") else UNK)
            return None if v is UNK else v > 3 or "a yield is not counted"
        ctx.forall(kind, ps, cnt, "yields are counted", need=1)


@rule("C24", "memory", "what was found is kept")
def c24_memory(ctx):
    c = ctx.P.cls(NUA)
    done = set()
    for n in sorted({m for k in c.mro if not isinstance(k, str) for m in list(k.methods) + list(k.attrs)
                     if m.startswith("visit_")}):
        m = method(c, n)
        if m is None or m.fq in done:
            continue
        done.add(m.fq)
        ps = ctx.run(m, cls=c, exc="none")

        def kept(p):
            for a in ("unclassified_deep", "accessible", "local", "imported", "explicitly_global_unbound_deep",
                      "explicitly_nonlocal_unbound_deep"):
                if shrinks(p, a):
                    return f"names found before ({a}) are forgotten"
            for e in events(p):
                if e.kind == "setattr" and e.recv == SELF and e.name in ("names", "imported_packages_deep") and not (
                        e.name == "imported_packages_deep" and contains(e.args["value"], ("attr", SELF, e.name))):
                    if not any(x[0] == "mu" for x in terms(e.args["value"])):
                        return "what was found before is forgotten"
            return True
        ctx.forall(n, ps, kept, "what was found is kept", need=1)


@rule("C24", "imports", "an import binds the names it gives, and nothing else")
def c24_imports(ctx):
    c = ctx.P.cls(NUA)
    for kind in ("Import", "ImportFrom"):
        m = method(c, "visit_" + kind)
        if m is None:
            continue
        ps = ctx.run(m, cls=c, exc="none")
        n = sym(m.params()[0][1])
        alias = ("elem", ("attr", n, "names"))

        def ok(p):
            if p.kind != "return":
                return True
            g = accessible(p)
            if g is None:
                return None
            for k, t, s in g:
                if contains(t, ("attr", n, "module")):
                    return "the module of a 'from' import counts as bound"
                if k in ("el", "each") and contains(t, ("attr", alias, "name")) and not contains(t, ("attr", alias, "asname")):
                    what = [b if gg[0] == "truthy" else not b for gg, b, *_ in [(x[0], x[1]) for x in p.guards] + [
                        (y[0], y[1]) for e in events(p) if e.kind == "loop" for _, _, gs in e.x["iters"] for y in gs]
                        if unver(gg) in (("truthy", ("attr", alias, "asname")), ("isnone", ("attr", alias, "asname")))]
                    if not what:
                        return "an import with a new name binds the original one"
            return True
        ctx.forall(f"visit_{kind}", ps, ok, "only the names given are bound", need=1)
    for k in c.mro:
        for name, m in getattr(k, "methods", {}).items():
            if not name.startswith("visit") or name in ("visit_FunctionDef", "visit_AsyncFunctionDef", "visit_Lambda") or len(m.params()[0]) < 2:
                continue

            def leveled(p):
                for e, v in visits(p):
                    N = e.recv
                    if N is None or not fresh_analyzer(N):
                        continue
                    evs = list(events(p))
                    lv = [x for x in evs[:evs.index(e)] if x.kind in ("setattr", "inplace") and x.recv == N and x.name == "func_nesting_level"]
                    if not lv:
                        return "functions nested in it are analysed as if they were the function itself"
                return True
            ctx.forall(f"{name}: scope", ctx.run(m, cls=c, exc="none"), leveled, "nested functions are analysed as nested ones", need=1)


@rule("C24", "scopes", "parameters are bound inside; nested scopes report what they need, and only that")
def c24_scopes(ctx):
    c = ctx.P.cls(NUA)
    n = sym("node")
    ARGS = ("attr", n, "args")

    def binds_args(p, owner):
        g = accessible(p, owner)
        if g is None:
            return None
        want = {"posonlyargs", "args", "kwonlyargs"}
        got = set()
        for k, t, s in g:
            for x in terms(t):
                if x[0] == "elem":
                    for y in terms(x[1]):
                        if y[0] == "attr" and y[1] == ARGS and y[2] in want:
                            got.add(y[2])
            # each parameter, unconditionally
        for e in events(p):
            if e.kind == "loop" and e.x["iter"] is not None and contains(e.x["iter"], ARGS):
                its = [(k, gs, any(x.kind == "setattr" or last(x) == "add" for x in flat_events(xs)))
                       for k, xs, gs in e.x["iters"]]
                if not any(w for _, _, w in its):
                    continue         # a loop that binds nothing
                for k, gs, w in its:
                    if k != "next" or (gs and not w):
                        return "some parameters do not count as bound"
        for a in ("vararg", "kwarg"):
            t = ("attr", ARGS, a)
            there = [b if g[0] == "truthy" else not b for g, b, _ in p.guards if g in (("truthy", t), ("isnone", t))]
            if has_el(g, ("attr", t, "arg")) or (there and not there[-1]):
                got.add(a)
        miss = (want | {"vararg", "kwarg"}) - got
        if miss:
            return f"parameters ({sorted(miss)[0]}) do not count as bound"
        return True

    def merges(p, N):
        for s in ("unclassified_deep", "explicitly_nonlocal_unbound_deep", "explicitly_global_unbound_deep"):
            src = ("attr", ("attr", N, "names"), s)
            g = growth(p, s)
            if g is None:
                return None
            hit = [x for x in g if x[0] == "set" and x[1] == src]
            if not hit:
                return f"what nested functions need ({s}) is lost" if not any(
                    contains(x[1], N) and not (x[0] == "set" and x[1][0] == "attr" and x[1][1] == ("attr", N, "names"))
                    for x in g) else None
            for k, t, subs in hit:
                for b in subs:
                    f = flat(b)
                    if f is None:
                        return None
                    for x in f:
                        if x[0] == "el" and x[1] == ("attr", n, "name") and s != "explicitly_global_unbound_deep":
                            continue      # the nested function itself
                        if x[0] == "set" and x[1] in (acc(), acc(n="local"), acc(n="imported")) and not x[2]:
                            if s == "explicitly_global_unbound_deep":
                                return "globals of nested functions are hidden by local names"
                            continue
                        if x[0] in ("el", "set") and not contains(x[1], SELF) and not contains(x[1], N) and not contains(x[1], n):
                            return f"some names nested functions need ({tstr(x[1])[:60]}) are not reported"
                        return None
            extra = [x for x in g if x not in hit]
            if s != "explicitly_global_unbound_deep" and not any(
                    x[1] == acc() for k, t, subs in hit for b in subs for x in (flat(b) or [])):
                return "names bound by the enclosing function are reported as needed from outside"
            if extra and any(x[0] != "set" or not contains(x[1], N) for x in extra):
                return None
        return True

    OUTSIDE = {"decorators": ("attr", n, "decorator_list"), "defaults": ("attr", ARGS, "defaults"),
               "defaults of keyword-only parameters": ("attr", ARGS, "kw_defaults")}

    def seen_outside(p, before=None):
        """Which of the parts that are evaluated outside a function are visited (before an event)."""
        got = set()
        for e, v in visits(p):
            if e.recv != SELF or v == n or before is not None and list(events(p)).index(e) > before:
                continue
            got |= {k for k, t in OUTSIDE.items() if contains(v, t) or v == ARGS and t[1] == ARGS}
        return got

    for kind in ("FunctionDef", "AsyncFunctionDef", "Lambda"):
        m = method(c, "visit_" + kind)
        if m is None:
            ctx.check(f"visit_{kind}", False, c.loc(),
                      f"the scope of a {kind} is mixed with that of the enclosing function")
            continue
        pn = m.params()[0][1]
        ps = ctx.run(m, cls=c, exc="none", params={pn: n} if pn != "node" else None)

        def level(p):
            for g, b, _ in p.guards:
                v = teval(g, lambda t: 0 if t == ("attr", SELF, "func_nesting_level") else UNK)
                w = teval(g, lambda t: 1 if t == ("attr", SELF, "func_nesting_level") else UNK)
                if v is not UNK and w is not UNK and bool(v) != bool(w):
                    return 0 if bool(v) == b else 1
            return None

        def ok(p, kind=kind):
            if p.kind != "return":
                return "fails"
            lv = 1 if kind == "Lambda" else level(p)
            N = nested_of(p)
            if lv is None:
                return None
            if lv == 0:
                r = binds_args(p, NAMES)
                if r is not True:
                    return r
                k = [i for i, (e, v) in enumerate(visits(p)) if v == n or v == ("attr", n, "body")
                     or v == ("elem", ("attr", n, "body"))]
                if not k:
                    return "the body is not analysed"
                w = [e for e in events(p) if e.kind == "setattr" and e.recv == NAMES and e.name == "function"]
                if not w or w[-1].args["value"] != ("attr", n, "name"):
                    return "the name of the function is not reported" if kind == "FunctionDef" else None
                # counted as level > 0 while the body is visited
                pos = None
                lvl = 0
                for e in p.events:
                    if e.kind == "setattr" and e.recv == SELF and e.name == "func_nesting_level":
                        v = teval(e.args["value"], lambda t: 0 if t == ("attr", SELF, "func_nesting_level") else UNK)
                        lvl = v if v is not UNK else None
                    if e.kind == "call" and last(e) == "generic_visit" and n in e.args.values():
                        pos = lvl
                if pos == 0:
                    return "functions nested in the function are analysed as if they were it"
                bound = [e for e in p.events if e.kind in ("setattr", "loop")]
                vis = [i for i, e in enumerate(p.events) if e.kind == "call" and last(e) == "generic_visit"]
                ac = [i for i, e in enumerate(p.events) if e.kind == "setattr" and e.name == "accessible"]
                if vis and ac and vis[0] < ac[-1]:
                    return "parameters are bound only after the body is analysed"
                return True
            if N is None:
                g = accessible(p)
                if any(v == n for e, v in visits(p) if e.recv == SELF and last(e) == "generic_visit"):
                    return "names bound in a nested function count as bound outside it"
                return None
            g = accessible(p)
            if g is None:
                return None
            if any(contains(t, N) or contains(t, ARGS) for k, t, s in g):
                return "names bound in a nested function count as bound outside it"
            if any(not (k == "el" and t == ("attr", n, "name")) for k, t, s in g):
                return None
            vs = [(e, v) for e, v in visits(p) if e.recv == N]
            if kind != "Lambda":
                if not any(v == n for e, v in vs):
                    return None
            else:
                lw = [e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == N
                      and e.name == "func_nesting_level"]
                if not any(v == ("attr", n, "body") for e, v in vs):
                    return "the body of a lambda is not analysed" if not any(v == n for e, v in vs) else None
                r = binds_args(p, ("attr", N, "names"))
                if r is not True:
                    return r
                if not any(v in (n, ARGS) for e, v in visits(p)):
                    return "defaults of a lambda are not analysed"
            if any(e.kind == "setattr" and e.recv == SELF and e.name == "n_yelds" for e in events(p)):
                return "yields of nested functions count for the function"
            return merges(p, N)
        ctx.forall(f"visit_{kind}", ps, ok, "scopes are kept apart, needs are merged", need=1)
        if kind == "Lambda":
            continue
        inner = [p for p in ps.returns() if level(p) == 0]
        outer = [p for p in ps.returns() if level(p) == 1]

        def own(p):
            tl = list(events(p))
            ac = [i for i, e in enumerate(tl) if e.kind == "setattr" and e.name in ("accessible", "local") and e.recv == NAMES]
            return seen_outside(p, ac[0] if ac else None)
        early = set(OUTSIDE).intersection(*[own(p) for p in inner]) if inner else set()

        def outside(p):
            miss = sorted(set(OUTSIDE) - early - seen_outside(p))
            return not miss or f"what the {miss[0]} of a nested function read is hidden by its parameters"
        ctx.forall(f"visit_{kind}: evaluated outside", ps, outside, "what is evaluated outside a function is read outside it",
                   paths=outer, need=1)

        def recursive(p):
            tl = list(events(p))
            bound = [i for i, e in enumerate(tl) if e.kind == "setattr" and e.recv == NAMES and e.name == "accessible"
                     and contains(e.args["value"], ("attr", n, "name"))]
            merged = [i for i, e in enumerate(tl) if e.kind == "setattr" and e.recv == NAMES and e.name == "unclassified_deep"]
            if not merged:
                return None
            if not bound:
                bound = [i for i, e in enumerate(tl) if e.kind == "call" and last(e) in ("add", "update") and e.recv is not None
                         and is_attr(e.recv, "accessible") and any(contains(v, ("attr", n, "name")) for v in e.args.values())]
            if not bound:
                return None
            return min(bound) < min(merged) or "a nested function that calls itself is reported as needed from outside"
        ctx.forall(f"visit_{kind}: recursion", ps, recursive, "a nested function finds itself", paths=outer, need=1)


@rule("C24", "descent", "no part of the function is left out")
def c24_descent(ctx):
    c = ctx.P.cls(NUA)
    for k in ("visit", "generic_visit"):
        m = c.methods.get(k)
        if m is not None:
            ps = ctx.run(m, cls=c, exc="none")
            nd = sym(m.params()[0][1])
            ctx.forall(k, ps, lambda p: p.kind != "return" or any(v == nd for e, v in visits(p)) or
                       "parts of the function are not analysed", "everything is visited", need=1)
    names = set()
    for k in c.mro:
        if isinstance(k, str):
            continue
        names |= {m for m in list(k.methods) + list(k.attrs) if m.startswith("visit_")}
    for name in sorted(names):
        kind = name[6:]
        if kind in LEAF:
            continue
        m = method(c, name)
        if m is None:
            ctx.check(name, None, c.loc(), "not resolved")
            continue
        kinds_ = [kind]
        for kd in kinds_:
            fs = fields(kd)
            if fs is None:
                continue
            ps = ctx.run(m, cls=c, exc="none")
            nd = sym(m.params()[0][1])

            def ok(p, fs=fs, nd=nd, kd=kd):
                if p.kind != "return":
                    return "fails"
                got = set()
                for e, v in visits(p):
                    if v == nd:
                        return True
                    for x in terms(v):
                        if x[0] == "attr" and x[1] == nd:
                            got.add(x[2])
                miss = [f for f in fs if f not in got]
                if not miss:
                    return True
                if kd == "Lambda" and miss == []:
                    return True
                return f"{miss[0]} of a {kd} is not analysed"
            ctx.forall(name, ps, ok, "all parts are analysed", need=1)
    # entry
    f = ctx.P.func("analyze_names_in_function")
    ps = ctx.run(f, exc="none")
    a = sym(f.params()[0][0])

    def entry(p):
        if p.kind != "return":
            return True
        d = dict_parts(p.value)
        if d is None:
            return None
        an, src = d[0].get("analyzer"), d[0].get("normalized_source")
        if an is None or src is None:
            return None
        if not (fn_name(src) in ("get_normalized_function_source", "__get_normalized_function_source__") and (
                a in src[2] or a in [v for _, v in src[3]])):
            return None
        tr = [v for e, v in visits(p) if e.recv == an]
        if not tr:
            return "the function is not analysed"
        if not any(ext_call(t, "parse") and src in t[2] for t in tr):
            return None
        one = [b for g, b, _ in p.guards for x in [teval(g, lambda t: 2 if ext_call(t, "len") and has_attr(t, "body") else UNK)]
               if x is not UNK and bool(x) != b]
        if not one:
            return "source with more than one statement is accepted, and only part of it counts"
        fd = [b for g, b, _ in p.guards if g[0] == "isinstance" and str(g[2]).endswith("FunctionDef") and "Async" not in str(g[2])]
        if True not in fd:
            return "source that is not a plain function is accepted"
        return True
    ctx.forall("analyze_names_in_function", ps, entry, "the whole normalised source is analysed", need=1)


# ------------------------------------------------------------------ C25
def analysis_attr(t, a):
    """is t analyze_names_in_function(self.fn_source_code)['analyzer'].names.<a>"""
    t = unver(t)
    if a == "n_yelds":
        base = t[1] if t[0] == "attr" and t[2] == a else None
    else:
        base = t[1][1] if t[0] == "attr" and t[2] == a and t[1][0] == "attr" and t[1][2] == "names" else None
    if base is None:
        return False
    return base[0] == "item" and fn_name(base[1]) == "analyze_names_in_function" and \
        contains(base[1], ("attr", SELF, "fn_source_code")) and base[2] == C("analyzer")


def empty_guard(g, b):
    """set term a guard shows to be empty, or None"""
    if g[0] == "truthy" and not b:
        return g[1][2][0] if ext_call(g[1], "len") else g[1]
    if g[0] == "eq" and b and C(0) in g[1:3]:
        o = g[2] if g[1] == C(0) else g[1]
        return o[2][0] if ext_call(o, "len") else None
    if g[0] == "not" and b:
        return empty_guard(g[1], False)
    return None


@rule("C25", "registration", "a function enters an island only if it needs nothing from enclosing scopes and yields nothing")
def c25_begin(ctx):
    for c in [x for x in function_classes(ctx) if ctx.P.cls("AutonomousFn") in x.mro]:
        f = c.find("_begin_fn_registration")
        ps = ctx.run(f, cls=c, exc="none")

        def enters(p):
            return [e for e in events(p) if e.kind == "setitem" and e.args.get("value") == SELF
                    and contains(e.args["key"], ("attr", SELF, "fn_name"))]

        def ok(p):
            w = enters(p)
            if not w:
                return True
            idx = [i for i, e in enumerate(p.events) if e in w]
            lim = idx[0] if idx else len(p.events)
            if p.kind == "raise" and idx and p.guards and p.guards[-1][2] > lim and any(
                    has_attr(p.guards[-1][0], n) for n in ("explicitly_nonlocal_unbound_deep", "n_yelds")) and not any(
                    e.kind == "delitem" or last(e) in ("pop", "discard") for e in p.events[lim:]):
                return "a function that is refused has entered the island"
            nl = y = None
            for g, b, i in p.guards:
                if i > lim:
                    continue
                t = empty_guard(g, b)
                if t is not None:
                    fl = flat(t)
                    if fl is None:
                        continue
                    if len(fl) == 1 and fl[0][0] == "set" and analysis_attr(fl[0][1], "explicitly_nonlocal_unbound_deep"):
                        nl = True
                        for s in fl[0][2]:
                            for x in flat(s) or [(None, s, ())]:
                                if not (x[0] == "set" and x[1][0] in ("gvar", "attr", "ext") and "decorators" in str(x[1][-1])):
                                    nl = "names of enclosing scopes are permitted"
                v = {n: teval(g, lambda t: n if analysis_attr(t, "n_yelds") else UNK) for n in (0, 1, 5)}
                if any(analysis_attr(x, "n_yelds") for x in terms(g)):
                    if all(v[n] is not UNK for n in v):
                        # only 0 may pass
                        y = (bool(v[0]) == b) and bool(v[1]) != b and bool(v[5]) != b or "functions that yield are permitted"
                    else:
                        y = "?"
            if isinstance(nl, str):
                return nl
            if isinstance(y, str):
                return None if y == "?" else y
            if nl is None:
                return None if any(has_attr(g, "explicitly_nonlocal_unbound_deep") for g, b, _ in p.guards) else \
                    "a function enters the island although it may use names of enclosing scopes"
            if y is None:
                return "a function enters the island although it may yield"
            return True
        ctx.forall(f"{c.name}: entering an island", ps, ok, "checked before it is registered",
                   sel=lambda p: bool(enters(p)), need=1)
        if c is not ctx.P.cls("AutonomousFn"):
            continue
    # __init__ registers
    for c in [x for x in function_classes(ctx) if ctx.P.cls("AutonomousFn") in x.mro]:
        f = c.find("__init__")
        ps = ctx.run(f, cls=c, exc="none", inline=("__init__",),
                     opaque=("_begin_fn_registration", "PortalAwareClass.__init__", "update", "_preprocess_guards"))

        def reg(p, c=c):
            if p.kind != "return":
                return True
            cp = calls(p, "update")
            b = calls(p, "_begin_fn_registration")
            if b:
                return True
            if any(last(e) == "update" for e in cp):
                return True
            return "a function is created without being checked and registered"
        ctx.forall(f"{c.name}: created", ps, reg, "every new function is registered", need=1)


@rule("C25", "strict flag", "a function asked to be strictly autonomous is")
def c25_flag(ctx):
    c = ctx.P.cls("AutonomousFn")
    f = c.find("__init__")
    ps = ctx.run(f, cls=c, exc="none", opaque=("_begin_fn_registration", "SafeFn.__init__", "update"))
    q = sym("strictly_autonomous")

    def ok(p):
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "strictly_autonomous"]
        for e in w:
            v = unver(e.args["value"])
            if v == q or ext_call(v, "bool") and v[2] == (q,):
                continue
            for want in (True, False):
                at = lambda t: want if t == q else UNK
                if consistent(p, at):
                    x = teval(v, at)
                    if x is UNK:
                        if v[0] in ("and", "or", "op", "ite", "eq", "not", "lt"):
                            return "whether a function is strictly autonomous depends on something else, too"
                        return None
                    if bool(x) != want:
                        return "a function asked to be strictly autonomous is not" if want else "a function becomes strictly autonomous unasked"
        return True
    ctx.forall("AutonomousFn.__init__", ps, ok, "the flag is the one asked for", need=1)


@rule("C25", "completion", "what a function needs from outside is checked before it can run")
def c25_complete(ctx):
    for c in [x for x in function_classes(ctx) if ctx.P.cls("AutonomousFn") in x.mro]:
        f = c.find("_complete_fn_registration")
        ps = ctx.run(f, cls=c, exc="none", inline=("_complete_fn_registration",))

        def ok(p):
            if p.kind != "return":
                for e, i in ((e, i) for i, e in enumerate(p.events) if e.kind == "setattr" and e.name == "_fn_fully_registered"):
                    if teval(e.args["value"], lambda t: UNK) is True and any(
                            j > i and has_attr(g, "unclassified_deep") for g, b, j in p.guards):
                        return "a function that is refused counts as checked"
                return True
            for g, b, _ in p.guards:
                if g[0] == "truthy" and is_attr(g[1], "_fn_fully_registered") and b:
                    # it, or the registered function with the same source, was checked before
                    return True
            strict = [b for g, b, _ in p.guards if g == ("truthy", ("attr", SELF, "strictly_autonomous"))]
            best = None
            for g, b, _ in p.guards:
                t = empty_guard(g, b)
                if t is None:
                    ln = [x for x in terms(g) if ext_call(x, "len") and any(
                        analysis_attr(y, "unclassified_deep") for y in terms(x))]
                    v = {n: teval(g, lambda t: n if t in ln else UNK) for n in (0, 1)}
                    if ln and UNK not in v.values() and bool(v[1]) == b and best is None:
                        best = "a function becomes executable although it needs a name from outside"
                    continue
                t, dropped = unfilter(t)
                fl = flat(t)
                if fl is None:
                    for x in terms(t):
                        if x[0] == "op" and x[1] in ("&", "^") and all(any(
                                analysis_attr(z, a) for z in terms(y) for a in ("explicitly_global_unbound_deep", "unclassified_deep"))
                                for y in x[2:4]):
                            return "not everything the function needs from outside is checked"
                    continue
                got = {a for a in ("explicitly_global_unbound_deep", "unclassified_deep")
                       for x in fl if x[0] == "set" and analysis_attr(x[1], a)}
                if not got:
                    continue
                if got != {"explicitly_global_unbound_deep", "unclassified_deep"}:
                    best = best if best is True else "not everything the function needs from outside is checked"
                    continue
                best = True
                for s in dropped:
                    if isinstance(s, str):
                        return s
                for x in fl:
                    for s in x[2] + tuple(dropped):
                        r = permitted(s, strict)
                        if r is not True:
                            return r
            if best is None:
                return None if any(has_attr(g, "unclassified_deep") for g, b, _ in p.guards) else \
                    "a function becomes executable although it may need names from outside"
            return best
        ctx.forall(f"{c.name}: completion", ps, ok, "names from outside are permitted ones only", need=2)


def unfilter(t):
    """A set term without the comprehension around it, and what that leaves out."""
    dropped = []
    while True:
        if t[0] == "op" and t[1] in ("-", "|"):
            a, da = unfilter(t[2])
            b, db = unfilter(t[3]) if t[1] == "|" else (t[3], [])
            return ("op", t[1], a, b), dropped + da + db
        if ext_call(t, "set", "frozenset", "list", "sorted", "tuple") and len(t[2]) == 1 and t[2][0][0] in ("list", "set"):
            t = t[2][0]
        if not (t[0] in ("set", "list") and len(t[1]) == 1 and t[1][0][0] == "each" and len(t[1][0]) == 4):
            return t, dropped
        x, src, gs = t[1][0][1], t[1][0][2], t[1][0][3]
        if x[0] != "elem":
            return t, dropped
        for g in gs:
            c, b = (g[0], g[1]) if len(g) > 1 and isinstance(g[1], bool) else (g, True)
            if c[0] == "not":
                c, b = c[1], not b
            if c[0] == "in" and c[1] == x and not b:
                dropped.append(c[2])
                continue
            for nm in ("x", "_y", "__z__", "Name1", "a_long_name"):
                v = teval(c, lambda y: nm if y == x else UNK)
                if v is UNK:
                    dropped.append(c)
                    break
                if bool(v) != b:
                    dropped.append(f"the function may need {nm} from outside")
                    break
        t = src


def permitted(s, strict):
    fl = flat(s)
    if fl is None:
        return None
    for k, t, subs in fl:
        t = unver(t)
        if k == "el":
            if t in (("attr", SELF, "fn_name"), C("self"), C("pth")):
                continue
            return f"the name {tstr(t)} is permitted" if is_c(t) else None
        if k != "set":
            return None
        tail = str(t[-1]) if t[0] in ("gvar", "ext", "attr", "modattr") else ""
        if "decorators" in tail:
            continue
        for a in ("local", "imported", "accessible"):
            if analysis_attr(t, a):
                return "names that are bound somewhere in the function are permitted even where they are not"
        if t[0] == "attr" and t[2] == "imported_packages_deep":
            return "names of packages are permitted without being imported"
        if any(ext_call(x, "globals") for x in terms(t)):
            return "names of the library's module are permitted"
        if has_attr(t, "known_functions") and not contains(t, ("attr", SELF, "island_name")):
            return "functions of other islands are permitted"
        if ext_call(t, "dir"):
            if "builtins" in tstr(t):
                continue
            return "names of other modules are permitted"
        if fn_name(t) == "retrieve_objs_available_inside_autonomous_functions":
            continue
        if t[0] == "item" and has_attr(t, "known_functions"):
            if t[2] != ("attr", SELF, "island_name"):
                return "functions of other islands are permitted" if has_attr(t[2], "default_island_name") or is_c(t[2]) else None
            if not strict:
                return "functions of the island are permitted although the function may be strictly autonomous"
            if strict[-1]:
                return "functions of the island are permitted for a strictly autonomous function"
            continue
        if ext_call(t, "globals"):
            return "names of the library's module are permitted"
        if ext_call(t, "vars", "locals", "dir") or t[0] == "attr" and t[2] == "__dict__":
            return "the names of an object are permitted"
        return None
    return True


@rule("C25", "offered", "the names offered without import are the library only")
def c25_offer(ctx):
    f = ctx.P.func("retrieve_objs_available_inside_autonomous_functions")
    ps = ctx.run(f, exc="none")

    def ok(p):
        if p.kind != "return":
            return None
        d = dict_parts(p.value)
        if d is None:
            return None
        ks = set(d[0])
        bad = [k for k in ks if k not in (C("pth"), "pth")]
        return not bad or f"{bad[0]} needs no import although executions may not provide it"
    ctx.forall("names without import", ps, ok, "only the library", need=1)
    g = ctx.P.func("AutonomousFn.dependencies")
    ps = ctx.run(g, cls=ctx.P.cls("AutonomousFn"), exc="none")

    def strict(p):
        if p.kind != "return":
            return True
        s = [b for c, b, _ in p.guards if c == ("truthy", ("attr", SELF, "strictly_autonomous"))]
        if s and not s[-1]:
            return True
        for c, b, _ in p.guards:
            v = teval(c, lambda t: 2 if ext_call(t, "len") else UNK)
            if v is not UNK and bool(v) != b:
                return True
        return "a strictly autonomous function can have dependencies"
    ctx.forall("strict autonomy", ps, strict, "a strictly autonomous function depends on itself only", need=1)


# ------------------------------------------------------------------ C26
@rule("C26", "redefinition", "a name in an island keeps its function")
def c26(ctx):
    A = ctx.P.cls("AutonomousFn")
    for c in [x for x in function_classes(ctx) if A in x.mro]:
        f = c.find("_begin_fn_registration")
        ps = ctx.run(f, cls=c, exc="none")
        FN = ("attr", SELF, "fn_name")

        def there(p):
            """is the name taken? (value of the first test)"""
            for g, b, _ in p.guards:
                if g[0] == "in" and g[1] == FN and island(g[2]):
                    return b
                while g[0] == "not":
                    g, b = g[1], not b
                if g[0] in ("isnone", "truthy") and looked_up(unver(g[1])):
                    return b == (g[0] == "truthy")
            return None

        def looked_up(t):
            """what is registered under the name, or None"""
            return t[0] == "call" and fn_name(t) == "get" and t[1][0] == "attr" and island(t[1][1]) \
                and call_arg(t, "0", 0) == FN and call_arg(t, "1", 1) in (None, NONE)

        def island(t):
            t = unver(t)
            if t[0] == "call" and fn_name(t) in ("setdefault", "get") and t[1][0] == "attr" and is_attr(
                    t[1][1], "known_functions") and t[2]:
                return t[2][0] == ("attr", SELF, "island_name")
            return t[0] == "item" and has_attr(t[1], "known_functions") and t[2] == ("attr", SELF, "island_name")

        def keep(p):
            th = there(p)
            w = [e for e in events(p) if e.kind in ("setitem", "delitem") and (
                island(e.recv) or (e.kind == "setitem" and e.args.get("value") == SELF))]
            w += [e for e in events(p) if e.kind == "call" and e.recv is not None and island(e.recv)
                  and last(e) in ("update", "pop", "clear", "__setitem__")]
            if th is None:
                return "a function is registered without looking whether the name is taken" if w else None
            if th and w:
                return "the function registered under the name is replaced"
            if not th and p.kind == "return" and not w:
                return "a new function is not registered"
            if not th:
                for e in w:
                    if e.kind == "setitem" and (e.args["key"] != FN or e.args["value"] != SELF or not island(e.recv)):
                        return "registered under another name or in another island" if e.args["key"] != FN else None
            # the island itself is only created when missing
            for e in events(p):
                if e.kind == "setitem" and is_attr(e.recv, "known_functions"):
                    k = [b for g, b, _ in p.guards if g[0] == "in" and g[1] == e.args["key"] and g[2] == e.recv]
                    if not k or k[0]:
                        return "a known island is replaced by an empty one"
            return True
        ctx.forall(f"{c.name}: kept", ps, keep, "what is registered stays", need=2)

        REG = None

        def atom(t, v):
            t = unver(t)
            if t[0] == "in" and t[1] == FN:
                return True
            if t[0] in ("isnone", "truthy") and looked_up(unver(t[1])):
                return t[0] == "truthy"
            if t[0] == "eq":
                for a, b in ((t[1], t[2]), (t[2], t[1])):
                    if a == ("attr", SELF, "fn_source_code") and is_attr(b, "fn_source_code") and b != a:
                        return v["src"]
                    if is_attr(a, "decorator", SELF) and is_attr(b, "decorator") and b != a:
                        return v["dec"]
                    if fn_name(a) == "decorator" and fn_name(b) == "decorator" and a != b:
                        return v["dec"]
                    if b[0] in ("typeof",) and a[0] == "cls" or (b[0] == "typeof" and a[0] == "typeof"):
                        return v["typ"]
                    if fn_name(b) == "type" or (ext_call(b, "type")):
                        return v["typ"]
            if t[0] == "is" and any(x[0] == "typeof" for x in t[1:3]):
                return v["typ"]
            return UNK

        def out(p, exp):
            if exp == "ok":
                return p.kind == "return" or "an identical definition is refused"
            return p.kind == "raise" or {"src": "another definition under the same name is accepted",
                                         "dec": "the same function with another decorator is accepted",
                                         "typ": "the same function of another kind is accepted"}[exp]
        base = dict(src=True, dec=True, typ=True)
        ctx.table(f"{c.name}: same name", ps, [
            ("identical", base, "ok"), ("other source", {**base, "src": False}, "src"),
            ("other decorator", {**base, "dec": False}, "dec"), ("other kind", {**base, "typ": False}, "typ")],
            atom, out, "only identical definitions may be repeated")
    # nobody else changes an island
    n = 0
    for f in ctx.P.all_funcs() if hasattr(ctx.P, "all_funcs") else ctx.P.funcs.values():
        if "OLD" in f.fq or "_000_tests" in f.fq:
            continue
        import ast as _a
        if not any(isinstance(x, _a.Attribute) and x.attr == "known_functions" for x in _a.walk(f.node)):
            continue
        n += 1
        reg = ("__init__", "_clear", "_clear_all", "_begin_fn_registration")
        if all(h.name in reg and (h.name == "_begin_fn_registration" or h.cls is not None and any(
                k.name == "BasicPortal" for k in h.cls.mro if not isinstance(k, str))) for h in homes(ctx, f, reg)):
            continue
        try:
            ps = ctx.run(f, cls=f.cls, exc="none", opaque=("_begin_fn_registration",))
        except Exception:
            continue

        def quiet(p):
            for e in events(p):
                if e.kind in ("setitem", "delitem", "setattr", "delattr"):
                    t = e.recv
                    if e.kind in ("setitem", "delitem") and t is not None and has_attr(t, "known_functions") and not (
                            t[0] == "call"):
                        return "functions registered in islands are changed outside registration"
                    if e.kind in ("setattr", "delattr") and e.name == "known_functions":
                        if e.kind == "setattr" and e.recv == SELF and f.name == "__init__":
                            continue
                        return "functions registered in islands are forgotten outside a reset"
                if e.kind == "call" and e.recv is not None and last(e) in (
                        "pop", "popitem", "clear", "update", "__setitem__", "__delitem__"):
                    t = unver(e.recv)
                    if is_attr(t, "known_functions") or t[0] == "item" and is_attr(t[1], "known_functions"):
                        return "functions registered in islands are changed outside registration"
            return True
        ctx.forall(f"{f.qual}: islands", ps, quiet, "islands are not changed", need=0)


# ------------------------------------------------------------------ C27
def covers(alts):
    """Do the alternatives (conjunctions of (condition, bool)) cover every case?"""
    atoms = sorted({c for a in alts for c, b in a}, key=repr)
    if len(atoms) > 6:
        return True
    for m in range(1 << len(atoms)):
        v = {c: bool(m >> i & 1) for i, c in enumerate(atoms)}
        if not any(all(v[c] == b for c, b in a) for a in alts):
            return False
    return True


@rule("C27", "references", "the names a function refers to are all taken into account")
def c27_refs(ctx):
    f = ctx.P.func("get_referenced_names")
    ps = ctx.run(f, exc="none")
    a = sym(f.params()[0][0])

    def ok(p):
        if p.kind != "return":
            return None
        if p.value[0] != "dict" or len(p.value[1]) != 1 or p.value[1][0][0] != "kv":
            return None
        k, v = p.value[1][0][1:3]
        fl = flat(v)
        if fl is None:
            return None
        got = set()
        for kk, t, subs in fl:
            if subs:
                return None
            if kk == "el" and unver(t) == unver(k):
                got.add("self")
            elif kk == "el" and is_attr(unver(t), "function"):
                got.add("self")
            elif kk == "set" and t[0] == "attr":
                got.add(t[2])
        need = {"self", "explicitly_global_unbound_deep", "explicitly_nonlocal_unbound_deep", "unclassified_deep"}
        miss = need - got
        if miss:
            return {"self": "a function does not count as its own dependency"}.get(
                sorted(miss)[0], f"names of the kind {sorted(miss)[0]} are left out")
        if not is_attr(unver(k), "function"):
            return None
        if not contains(k, a):
            return None
        return True
    ctx.forall("get_referenced_names", ps, ok, "all names the function refers to", need=1)


@rule("C27", "closure", "dependencies are closed under reference")
def c27_closure(ctx):
    f = ctx.P.func("explore_call_graph_shallow")
    ps = ctx.run(f, exc="none")
    a = sym(f.params()[0][0])

    def shallow(p):
        if p.kind != "return":
            return True
        coll = inter = False
        for t in terms(p.value):
            if t[0] == "op" and t[1] == "-" and not any(
                    y == a or y[0] in ("mu", "unknown", "elem", "idx", "sym") for y in terms(t[3])):
                return "some known functions do not count as dependencies"
        for e in events(p):
            if e.kind != "loop":
                continue
            it = strip_wrappers(e.x["iter"]) if e.x["iter"] is not None else None
            over = it == a
            for k, xs, gs in e.x["iters"]:
                if k != "next":
                    return "not all functions are looked at" if over else None
                for x in flat_events(xs):
                    vals = list(x.args.values())
                    if any(has_call(v, "get_referenced_names") or (v[0] == "call" and fn_name(v) == "get_referenced_names") for v in vals) \
                            and (last(x) == "update" or x.kind == "setitem"):
                        if over:
                            if gs:
                                return "not all functions are looked at"
                            coll = True
                    if x.kind == "inplace" and x.name in ("&", "-") and any(
                            t[0] == "op" and t[1] == "-" and t[3][0] == "set" and len(t[3][1]) == 1 and t[3][1][0][0] == "one"
                            and t[3][1][0][1][0] == "elem" for t in terms(("op", x.name, NONE, x.args["value"]))):
                        return "a function does not count as its own dependency"
                    if x.kind == "setitem" and x.args.get("value") is not None:
                        v = x.args["value"]
                        if v[0] == "op" and v[1] == "&":
                            inter = True
                            if gs:
                                return None
        if not coll:
            v = p.value
            if v[0] == "dict" and has_call(v, "get_referenced_names"):
                coll = True
            else:
                return None
        if not inter:
            if any(y[0] == "op" and y[1] == "&" for y in terms(p.value)) or has_call(p.value, "intersection"):
                return True
            if not any("&" in tstr(x.args.get("value", NONE)) or last(x) in ("intersection_update", "intersection")
                       for x in events(p)):
                return "names that are no known functions count as dependencies"
        return True
    ctx.forall("explore_call_graph_shallow", ps, shallow, "direct dependencies among the known functions", need=1)
    g = ctx.P.func("explore_call_graph_deep")
    pg = ctx.run(g, exc="none")
    G = ("call", None)

    def reach(v):
        """Everything the value is made of, through loop variables."""
        out, todo = [], [v]
        seen = set()
        while todo:
            t = todo.pop()
            for x in terms(t):
                if x in seen:
                    continue
                seen.add(x)
                out.append(x)
                if x[0] == "mu":
                    todo += list(pg.it.mus.get(x, ()))
        return out

    def deep(p):
        if p.kind != "return":
            return True
        sh = [e for e in events(p) if e.kind == "call" and last(e) == "explore_call_graph_shallow"]
        if not sh:
            return None
        D = sh[0].res
        w = [e for e in events(p) if e.kind == "setitem"]
        if not w and p.value == D:
            return "only direct dependencies are found"
        if not w and p.value[0] != "dict":
            return None
        vals = [e.args["value"] for e in w] or [x[2] for x in p.value[1] if x[0] in ("kv", "kveach")]
        worst = True
        for o in loops(p.events):
            if o.x["iter"] is not None and any(x in vals for _, xs, _ in o.x["iters"] for y in xs
                                               if y.kind == "setitem" for x in y.args.values()):
                src = strip_wrappers(o.x["iter"])
                if src == D or (src[0] == "call" and src[1] == ("attr", D, "keys")):
                    if any(k != "next" for k, _, _ in o.x["iters"]) and not all(
                            y[0] == "next" for y in o.x["iters"]):
                        return "the closure is not computed for every function"
        for v in vals:
            R = reach(v)
            second = [x[2][1] for x in R if x[0] == "item" and unver(x[1]) == unver(D) and x[2][0] == "elem"
                      and strip_wrappers(x[2][1]) != D]
            if not second:
                if any(y[0] in ("mu", "unknown", "set", "list") for y in R):
                    worst = None
                    continue
                return "only direct dependencies are found"
            trans = None
            for s_ in second:
                if s_[0] != "mu":
                    continue
                if s_ not in [x for y in pg.it.mus.get(s_, ()) for x in reach(y)]:
                    continue
                trans = s_
            if trans is None:
                whiles = [l for l in loops(p.events) if l.x["iter"] is None]
                if whiles or any(x[0] == "unknown" for x in R):
                    worst = None
                    continue
                return "only one level of indirect dependencies is followed"
            l = next((l for l in loops(p.events) if l.x["id"] == trans[1]), None)
            if l is None:
                worst = None if worst is True else worst
            elif l.x["iter"] is not None and ext_call(l.x["iter"], "range") and all(
                    is_c(x) for x in l.x["iter"][2]):
                return "dependencies are followed to a limited depth"
            # what was assumed on leaving
            gs = [(c, b) for o in p.events if o.kind == "loop" for _, _, gg in o.x["iters"] for c, b, *_ in gg]
            gs += [(c, b) for o in loops(p.events) for k, _, gg in o.x["iters"] if k == "break" for c, b, *_ in gg]
            new = [m for m in {x for x in R if x[0] == "mu"}
                   if any(y[0] == "op" and y[1] == "|" for y in pg.it.mus.get(m, ()))]
            sizes = {m: (2 if m in new else 1) for m in R if m[0] == "mu"}

            def grown(t, eq=False):
                if ext_call(t, "len") and t[2][0] in sizes:
                    return 1 if eq else sizes[t[2][0]]
                if t[0] == "eq" and t[1] in sizes and t[2] in sizes:
                    return eq or sizes[t[1]] == sizes[t[2]]
                if t[0] == "lt" and t[1] in sizes and t[2] in sizes:
                    return not eq and sizes[t[1]] < sizes[t[2]]
                return UNK
            stop = [(c, b) for c, b in gs if any(x in sizes for x in terms(c))]
            for c, b in stop:
                x, y = teval(c, grown), teval(c, lambda t: grown(t, True))
                if x is not UNK and bool(x) == b and len(set(sizes.values())) == 2:
                    return "the search stops while new dependencies are still found"
                if y is not UNK and bool(y) != b:
                    return "the search does not stop when nothing is added"
            if l is None and stop:
                worst = True
        return worst
    ctx.forall("explore_call_graph_deep", pg, deep, "a fixed point is computed for every function", need=1)
    # what is stored
    A = ctx.P.cls("AutonomousFn")
    h = A.find("_complete_fn_registration")
    ph = ctx.run(h, cls=A, exc="none", inline=("_complete_fn_registration",))

    def stored(p):
        w = [e for e in events(p) if e.kind == "setattr" and e.name == "_autonomous_fn_dependencies"]
        if p.kind != "return":
            return True
        done = [e for e in events(p) if e.kind == "setattr" and e.name == "_fn_fully_registered"
                and e.args["value"] == TRUE]
        if not w:
            return not done or calls(p, "update") != [] or "a function counts as registered without its dependencies"
        for e in w:
            v = strip_wrappers(e.args["value"])
            v = unver(v)
            parts = flat(v)
            ups = [v]
            while any(x[0] == "op" and x[1] == "|" for x in ups):
                ups = [y for x in ups for y in (x[2:4] if x[0] == "op" and x[1] == "|" else (x,))]
            if len(ups) > 1 and any(has_call(x, "explore_call_graph_deep") for x in ups):
                for x in ups:
                    if not has_call(x, "explore_call_graph_deep") and (x[0] != "set" or any(
                            y[0] == "each" and has_attr(y, "known_functions") for y in x[1])) and x[0] in ("set", "attr", "item", "op"):
                        return "names it does not depend on are recorded"
            if v[0] in ("set", "list") and v[1] and all(x[0] == "each" and x[3] and has_call(
                    x[2], "explore_call_graph_deep") for x in v[1]) and not covers([x[3] for x in v[1]]):
                if not any(c[0] == "in" and "known_functions" in tstr(c[2]) for x in v[1] for gg in x[3] for c in terms(gg)):
                    return "part of the dependencies is not recorded"
            if parts and (len(parts) > 1 or v[0] != "item") and any(has_call(t, "explore_call_graph_deep") for _, t, _ in parts):
                for k_, t, sub in parts:
                    if t[0] == "call" and fn_name(t) == "explore_call_graph_deep":
                        return "functions it does not depend on are recorded"
                    if sub:
                        return "part of the dependencies is not recorded"
                    if k_ == "el" and t != ("attr", SELF, "fn_name") or k_ == "set" and not has_call(
                            t, "explore_call_graph_deep"):
                        return "names it does not depend on are recorded"
            if v[0] != "item" or fn_name(v[1]) != "explore_call_graph_deep":
                return "only direct dependencies are recorded" if has_call(v, "explore_call_graph_shallow") else None
            if v[2] != ("attr", SELF, "fn_name"):
                return "the dependencies of another function are recorded"
            arg = (list(v[1][2]) + [x for _, x in v[1][3]])[0]
            if arg[0] != "list" or not arg[1] or any(x[0] != "each" for x in arg[1]):
                return None
            if not covers([x[3] for x in arg[1]]):
                return "not all functions of the island are taken into account"
            ea = arg[1][0]
            if not has_attr(ea[1], "fn_source_code") or not has_attr(ea[1], "known_functions"):
                return None
            isl = [t for t in terms(ea[1]) if t[0] == "item" and is_attr(t[1], "known_functions")]
            if any(t[2] != ("attr", SELF, "island_name") for t in isl):
                return "functions of another island are taken into account"
        return True
    ctx.forall("recorded dependencies", ph, stored, "the closure over the island is recorded", need=2)
    d = ctx.P.func("AutonomousFn.dependencies")
    pd_ = ctx.run(d, cls=A, exc="none")

    def prop(p):
        if p.kind != "return":
            return True
        v = unver(strip_wrappers(p.value))
        if is_attr(v, "_autonomous_fn_dependencies"):
            b = v[1]
            if b == SELF or (b[0] == "item" and b[2] == ("attr", SELF, "fn_name")):
                return True
            return None
        return "part of the dependencies is dropped" if has_attr(v, "_autonomous_fn_dependencies") else None
    ctx.forall("AutonomousFn.dependencies", pd_, prop, "the recorded closure is what is reported", need=1)
