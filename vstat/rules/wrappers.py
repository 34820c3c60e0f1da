"""Dictionaries wrapping others (C56)."""
from .base import *
from .config import merge_order
from .logs import delegation
from .ordinary import ext_call


def store_key(e):
    """Attribute of self set by an event: (key term, value) or None."""
    if e.kind == "setattr" and e.recv == SELF:
        return ("c", "str", e.name), e.args["value"]
    if e.kind == "setitem" and is_attr(e.recv, "__dict__", SELF):
        return e.args["key"], e.args["value"]
    if e.kind == "call" and e.res is not None and e.res[0] == "call" and e.res[1] in (("ext", "setattr"), ("ext", "object.__setattr__")):
        a = e.res[2]
        if len(a) == 3 and a[0] == SELF:
            return a[1], a[2]
    return None


@rule("C56", "first entry", "a first-entry dictionary shows what the dictionary it wraps has")
def c56_first(ctx):
    P = ctx.P
    c = P.cls("FirstEntryDict")
    init = c.methods["__init__"]
    ips = ctx.run(init, cls=c, exc="none")
    WP, PP = sym("wrapped_dict"), sym("p_consistency_checks")
    W = None
    for p in ips.returns():
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF and e.args["value"] == WP:
                W = ("attr", SELF, e.name)
    if W is None:
        ctx.check("FirstEntryDict.__init__", None, init.loc(), "wrapped dictionary not found")
        return

    # what it can be made of
    def atom(t, v):
        if t[0] == "isinstance" and t[1] == WP:
            return v["d"]
        if is_attr(t, "immutable_items", WP):
            return v["i"]
        if t == PP:
            return v["p"]
        if t[0] == "isinstance" and t[1] == PP:
            return isinstance(v["p"], (int, float)) if t[2] in ("float", "int", "numbers.Number") else UNK
        return UNK

    def outcome(p, exp):
        return (p.kind == "return") == exp or ("is accepted" if p.kind == "return" else "is refused")
    rows = [("probability not given", dict(d=True, i=True, p=None), True), ("never", dict(d=True, i=True, p=0), True),
            ("always", dict(d=True, i=True, p=1), True), ("sometimes", dict(d=True, i=True, p=0.5), True),
            ("rarely", dict(d=True, i=True, p=1e-9), True), ("nearly always", dict(d=True, i=True, p=0.999999), True),
            ("negative probability", dict(d=True, i=True, p=-0.001), False), ("more than certain", dict(d=True, i=True, p=1.001), False),
            ("mutable dictionary", dict(d=True, i=False, p=None), False), ("no persistent dictionary", dict(d=False, i=True, p=None), False)]
    ctx.table("made from", ips, rows, atom, outcome, "what a first-entry dictionary can be made from")
    from .addresses import flag_default
    d = flag_default(init, "p_consistency_checks")
    ctx.check("probability by default", None if d is None else d is not Ellipsis and d[1] is None, init.loc(), "no checks unless asked for")

    def declared(p):
        if p.kind != "return":
            return True
        e = next((e for e in events(p) if e.kind == "call" and e.name.endswith("PersiDict.__init__")), None)
        if e is None:
            return None
        i, b = e.args.get("immutable_items"), e.args.get("base_class_for_values")
        if i is None or (is_c(i) and not i[2]):
            return "declares itself mutable"
        for n in (None, 0, 0.5, 1):
            at = lambda t: n if t[0] == "sym" and t[1] == "p_consistency_checks" else UNK
            if teval(i, at) is False and consistent(p, at):
                return "declares itself mutable"
        if b is None or is_c(b):
            return "declares another class of values"
        return True if is_attr(b, "base_class_for_values") and b[1] in (WP, W) and (i == ("c", "bool", True) or is_attr(i, "immutable_items")) else None
    ctx.forall("declares", ips, declared, "immutable, with the class of values of the wrapped dictionary", need=1)

    def keeps_p(p):
        if p.kind != "return":
            return True
        vals = [e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name.endswith("p_consistency_checks")]
        if not vals:
            return None
        return vals[-1] == PP or ("the probability given is ignored" if not contains(vals[-1], PP) else None)
    ctx.forall("keeps probability", ips, keeps_p, "the probability given is kept", need=1)

    delegation(ctx, c, W)

    # everything else is looked up there
    f = c.methods.get("__getattr__")
    if f is None:
        ctx.check("FirstEntryDict.__getattr__", False, c.loc(), "other attributes are not those of the wrapped dictionary")
    else:
        ps = ctx.run(f, cls=c, exc="none")
        N = sym(f.params()[0][1])

        def forwards(p):
            if p.kind == "raise":
                # refusing special names (while unpickling the wrapped dictionary is not there yet) is fine
                return True if any(contains(g, N) for g, _, _ in p.guards) else "raises for every name"
            v = p.value
            if is_c(v):
                return "an attribute of the wrapped dictionary is replaced by a constant"
            if v[0] == "call" and v[1] == ("ext", "getattr") and len(v[2]) >= 2:
                if v[2][0] != W:
                    return "another object is asked" if v[2][0] == SELF else None
                if v[2][1] != N:
                    return "another attribute is given" if is_c(v[2][1]) or contains(v[2][1], N) else None
                return len(v[2]) == 2 or "a missing attribute has a value"
            if v[0] == "call" and fn_name(v) in ("__getattr__", "__getattribute__") and contains(v, W) and contains(v, N):
                return True
            return None
        ctx.forall("FirstEntryDict.__getattr__", ps, forwards, "gives that attribute of the wrapped dictionary", need=1)

        def name_atom(t, v):
            return v if t == N else UNK
        ctx.table("FirstEntryDict.__getattr__: any name", ps, [(n, n, None) for n in (
            "base_dir", "root_dict", "_base_dir", "subdicts", "file_type", "newest_keys", "x")], name_atom,
            lambda p, exp: p.kind != "raise" or "an attribute of the wrapped dictionary is not given", "given whatever its name is")
        ctx.exists("FirstEntryDict.__getattr__: forwards", ps, lambda p: p.kind == "return", "gives an attribute")

    # iteration: exactly the elements asked for
    g = c.methods.get("_generic_iter")
    if g is not None:
        ps = ctx.run(g, cls=c, exc="none")
        A = sym(g.params()[0][1])

        def iterates(p):
            if p.kind != "return":
                return "raises"
            v = p.value
            if v is None or is_c(v):
                return "nothing is iterated"
            if v[0] == "call" and fn_name(v) == "_generic_iter" and v[1][0] == "attr" and v[1][1] == W:
                xs = list(v[2]) + [x for _, x in v[3]]
                return xs == [A] or ("other elements are given" if xs and is_c(xs[0]) else None)
            return None
        ctx.forall("FirstEntryDict._generic_iter", ps, iterates, "iterates over the wrapped dictionary in the way asked for", need=1)


@rule("C56", "multi", "a multi dictionary has one dictionary for every file type and no items")
def c56_multi(ctx):
    c = ctx.P.cls("OverlappingMultiDict")
    f = c.methods["__init__"]
    ps = ctx.run(f, cls=c, exc="none")
    pos = f.params()[0]
    D, SH = sym(pos[1]), sym(pos[2])
    kw = f.params()[3]
    IN = sym(kw) if kw else None

    def atom(t, v):
        if t[0] == "call" and ext_call(t, "issubclass") and t[2] and t[2][0] == D:
            return v["d"]
        if t[0] == "isinstance" and t[1] == SH:
            return v["s"]
        if t[0] == "isinstance":
            return v["o"]
        return UNK

    def outcome(p, exp):
        return (p.kind == "return") == exp or ("is accepted" if p.kind == "return" else "is refused")
    ctx.table("made from", ps, [
        ("no persistent dictionary class", dict(d=False, s=True, o=True), False),
        ("shared parameters are no dictionary", dict(d=True, s=False, o=True), False),
        ("as meant", dict(d=True, s=True, o=True), True)], atom, outcome, "what a multi-dictionary can be made from")

    def src(t):
        t = strip_wrappers(t)
        if t[0] == "call" and fn_name(t) in ("keys", "items") and t[1][0] == "attr":
            t = t[1][1]
        return t

    def own_name(k):
        """k is the name of the file type of this round"""
        if k[0] == "elem" and src(k[1]) == IN:
            return True
        if k[0] == "item" and k[1][0] == "elem" and k[2] == ("c", "int", 0) and fn_name(strip_wrappers(k[1][1])) == "items":
            return True
        return False

    def parts(p):
        if p.kind != "return":
            return True
        ls = [e for e in p.events if e.kind == "loop" and e.x["iter"] is not None and src(e.x["iter"]) == IN]
        if not ls:
            upd = [e for e in events(p) if e.kind == "call" and last(e) == "update"]
            return None if upd or any(e.kind == "loop" for e in p.events) else "no dictionary is made for the file types"
        made = False
        for l in ls:
            for k, evs, gs in l.x["iters"]:
                if k == "raise":
                    continue
                if k not in ("next", "continue"):
                    return "not every file type gets a dictionary"
                new = [e for e in flat_events(evs) if e.kind == "call" and e.res is not None and e.res[0] == "call" and (e.res[1] == D or (
                    is_attr(e.res[1], "dict_type", SELF)))]
                st = [s for s in (store_key(e) for e in flat_events(evs)) if s]
                if not new and not st:
                    if not evs and not p.imprecise and not any(x[0] == "isinstance" for g in gs for x in terms(g[0])):
                        return "some file types get no dictionary"
                    continue
                made = True
                if not new:
                    return "the dictionaries are not of the class given"
                if not st:
                    return "the dictionary is not available under a name"
                hit = [(k2, v2) for k2, v2 in st if v2 == new[-1].res]
                if not hit:
                    return None
                if not own_name(hit[-1][0]):
                    k2 = hit[-1][0]
                    return "the dictionary is not available under the name of its file type" if is_c(k2) or (
                        k2[0] == "call" and k2[1][0] == "attr" and k2[1][2] in ("lower", "upper", "title", "capitalize", "strip", "replace", "lstrip", "rstrip")
                        and own_name(k2[1][1])) or (
                        k2[0] in ("op", "cat") and any(own_name(x) for x in terms(k2) if isinstance(x, tuple) and len(x) > 1)) else None
                order = []
                a = new[-1].args
                lst = list(merge_order(a["**"])) if "**" in a else []
                if "file_type" in a:
                    lst.append((("c", "str", "file_type"), a["file_type"]))
                before = list(flat_events(evs))
                before = before[:before.index(new[-1])]
                for e in before:
                    if e.kind == "setitem" and e.recv == a.get("**"):
                        lst.append((e.args["key"], e.args["value"]))
                    elif e.kind == "mutate" and e.recv == a.get("**"):
                        lst.append((None, ("c", "str", "unknown")))
                for k2, v2 in lst:
                    if k2 is not None:
                        if k2 == ("c", "str", "file_type"):
                            if not own_name(v2):
                                if fn_name(v2) in ("get", "pop", "setdefault") and C("file_type") in v2[2]:
                                    return "the file type can be replaced by a parameter"
                                return "the dictionary gets another file type" if is_c(v2) else None
                            order.append("type")
                        continue
                    order.append("shared" if v2 == SH or is_attr(v2, "shared_subdicts_params", SELF) else "own" if contains(v2, IN) or contains(
                        v2, ("attr", SELF, "individual_subdicts_params")) else "?")
                if "own" in order and any(o == "?" and i > order.index("own") and contains(v2, SH)
                                          for i, (o, (k2, v2)) in enumerate(zip([x for x in order if x != "type"], [x for x in lst if x[0] is None]))):
                    return "shared parameters replace those of a file type"
                if "?" in order:
                    return None
                if order[-1:] != ["type"]:
                    return "the file type can be replaced by a parameter" if "type" in order else "the dictionary does not get its file type"
                if order[:2] != ["shared", "own"]:
                    return "the dictionary does not get its own parameters on top of the shared ones"
        return made or "no dictionary is made for the file types"
    ctx.forall("parts", ps, parts, "one dictionary of the given class per file type, under its name", need=1)

    for m in ("__getitem__", "__setitem__", "__delitem__"):
        g = c.methods.get(m)
        if g is None:
            # without the method Python itself refuses the access
            ctx.check(f"OverlappingMultiDict.{m}", True, c.loc(), "no item access")
            continue
        qs = ctx.run(g, cls=c, exc="none")

        def refused(p):
            if p.kind != "raise":
                return "access to items is not refused"
            x = p.value
            return x[0] == "exc" and x[1] == "NotAllowedError" or ("another error is raised" if x[0] == "exc" else None)
        ctx.forall(f"OverlappingMultiDict.{m}", qs, refused, "refused with the library's error", need=1)
